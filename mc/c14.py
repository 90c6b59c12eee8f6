"""C14: the filters are causal, restartable state machines, for every history and every cut of it."""
import itertools
import math

import mpmath as mp
import numpy as np

from mc import c03, c12, c13, c18
from mc.c07 import reference as graded_lexico
from mc.hmm import very_long_words
from mc.common import FLOAT_TRUST, words
from mc.nonlin import Sys

RULE = ('A state is the output of a filter after one measurement history; transitions are measurements. For every history up to the horizon and every '
        'cut of it: the outputs on the prefix are those of the whole history, the filter restarted from its own output at the cut continues as the '
        'uncut run does, the negative log-likelihoods of the two parts add up, and the smoothers of the tail agree with the tail of the smoother. '
        'Long periodic histories, and long constant histories with one outlier, are cut at every position. Repetition, batching, compilation and the container type of the inputs change nothing, and inputs are left as they were.')
ASSUMPTIONS = [FLOAT_TRUST, 'particle filters are excluded: their random keys are indexed by the length of the history (their step law is decided by C17)']


def cfg(tier):
    return dict(T=3, L=64) if tier == 'quick' else dict(T=6, L=100)


def bounds(tier):
    c = cfg(tier)
    return dict(history_length=c['T'], alphabet=3, cuts='all', long_history=c['L'])


def units(tier):
    us = []
    for k in range(len(c03.MODELS)):
        for N in (1, 2, 3, 5):
            if tier == 'thorough' or N == 2 or (N, k) in ((1, 0), (3, 1), (5, 2), (3, 3)):
                us.append((f'1D {c03.MODELS[k]} N={N}', ['one', k, N], 6))
    for k in range(2):
        for d, N in ((1, 2), (2, 2), (3, 2), (2, 3)):
            if tier == 'thorough' or d == 2 or k:
                us.append((f'ND d={d} N={N} model {k}', ['nd', k, d, N], 12))
    for dx, dy in ((1, 1), (2, 1), (2, 3), (3, 2)):
        us.append((f'kf dx={dx} dy={dy}', ['kf', dx, dy], 4))
        for kind in ('ekf', 'cubature', '3'):
            us.append((f'{kind} dx={dx} dy={dy}', ['gauss', kind, dx, dy, 0], 5))
            us.append((f'cd {kind} dx={dx} dy={dy}', ['gauss', kind, dx, dy, 1], 5))
    for m in ('chapman-euler', 'chapman-tme-2', 'kolmogorov'):
        us.append((f'grid {m}', ['grid', m], 5))
    return us


def run_unit(ctx, tier, what, *a):
    {'one': one, 'nd': nd, 'kf': kf, 'gauss': gauss_, 'grid': grid}[what](ctx, tier, *a)


# A filter: run(state, ys) -> (per-time arrays, nll per time | final nll | None); state_at(arrays, t) -> state after t + 1 measurements

def explore(ctx, tier, case, run, state0, state_at, alphabet, tol, smooth=None, far=None):
    import jax
    import jax.numpy as jnp
    T, L = cfg(tier)['T'], cfg(tier)['L']
    hist = words(range(len(alphabet)), T)
    alphabet = np.asarray(alphabet)
    ys = alphabet[np.array(hist)]
    compiled = jax.jit(jax.vmap(run, in_axes=[0, 0]))
    size = len(hist)

    def batch2(st, y):
        """All batches have the same size, so that there is one compilation per length of the history."""
        n = len(y)
        pad = lambda v: np.concatenate([np.asarray(v)] * -(-size // n))[:size]
        out = compiled(jax.tree_util.tree_map(pad, st), pad(y))
        return jax.tree_util.tree_map(lambda v: np.asarray(v)[:n], out)

    def batch(st, y):
        return batch2(jax.tree_util.tree_map(lambda v: np.broadcast_to(np.asarray(v), (len(y),) + np.shape(v)), st), y)

    cut = lambda arrays, t: jax.tree_util.tree_map(np.asarray, state_at([np.moveaxis(v, 0, 1) for v in arrays], t))
    d = lambda h, t: lambda i: dict(case, history=h[i[0]], cut=t)
    full = {}
    for t in range(1, T + 1):
        hs = words(range(len(alphabet)), t)
        full[t] = (hs, batch(state0, alphabet[np.array(hs)]))
        for h in hs:
            ctx.state((str(case), h))
            ctx.trans()
    arrs, nll = full[T][1]
    for v in arrs:
        ctx.ok(np.all(np.isfinite(v)), 'output is not finite', case)
        ctx.ok(v.shape[:2] == (len(hist), T), 'one output per measurement', case, v.shape)
    if nll is not None:
        ctx.ok(np.all(np.isfinite(nll)), 'negative log-likelihood is not finite', case)
    # prefixes
    for t in range(1, T):
        hs, (a, n) = full[t]
        idx = {h: i for i, h in enumerate(hs)}
        pick = [idx[h[:t]] for h in hist]
        for v, w in zip(a, arrs):
            ctx.close('the output depends on later measurements', w[:, :t], v[pick], tol, rtol=tol, describe=d(hist, t))
        if nll is not None and nll.ndim == 2:
            ctx.close('the likelihood depends on later measurements', nll[:, :t], n[pick], tol, rtol=tol, describe=d(hist, t))
        ctx.trace(len(hist))
    # restarts
    for t in range(1, T):
        st = cut(arrs, t - 1)
        b, m = batch2(st, ys[:, t:])
        for v, w in zip(arrs, b):
            ctx.close('restart from the output', np.asarray(w), v[:, t:], tol, rtol=tol, describe=d(hist, t))
        if nll is not None:
            m = np.asarray(m)
            hs, (_, n) = full[t]
            idx = {h: i for i, h in enumerate(hs)}
            n = n[[idx[h[:t]] for h in hist]]
            if nll.ndim == 2:
                ctx.close('likelihoods of the parts add up', n[:, -1:] + m, nll[:, t:], tol, rtol=tol, describe=d(hist, t))
            else:
                ctx.close('likelihoods of the parts add up', n + m, nll, tol, rtol=tol, describe=d(hist, t))
        ctx.trace(len(hist))
        ctx.trans(len(hist))
    # long periodic histories, and long constant histories with one outlier, cut everywhere
    per = [w for n in (1, 2, 3) for w in words(range(len(alphabet)), n)][::4]
    groups = [[tuple(w[i % len(w)] for i in range(L)) for w in per]]
    letters = np.concatenate([alphabet, alphabet[:0] if far is None else np.asarray(far)])
    odd = []
    for a, b in list(itertools.permutations(range(len(alphabet)), 2)) + [(a, b) for a in range(2) for b in range(len(alphabet), len(letters))]:
        odd += [tuple(b if i == p else a for i in range(L)) for p in (0, 1, L // 2, L - 2, L - 1)]
    odd += [(a,) * L for a in range(len(alphabet))]
    groups += [odd[i:i + size] for i in range(0, len(odd), size)]
    done = {}
    for lh in groups:
        la, ln = batch(state0, letters[np.array(lh)])
        for i, h in enumerate(lh):
            done[h] = ([v[i] for v in la], None if ln is None else np.asarray(ln)[i])
        good = [i for i in range(len(lh)) if all(np.all(np.isfinite(v[i])) for v in la)]
        if not good:
            continue
        lh, la = [lh[i] for i in good], [v[good] for v in la]
        ln = None if ln is None else np.asarray(ln)[good]
        steps = None
        for t in range(1, L):
            st = cut(la, t - 1)
            y = letters[np.array([[w[t]] for w in lh])]
            b, m = batch2(st, y)
            for v, w in zip(la, b):
                ctx.close('one step from the output (long history)', np.asarray(w)[:, 0], v[:, t], tol, rtol=tol, describe=d(lh, t))
            if ln is not None and ln.ndim == 2:
                ctx.close('likelihood increment (long history)', np.asarray(m)[:, 0], ln[:, t] - ln[:, t - 1], 1e3 * tol, rtol=1e3 * tol, describe=d(lh, t))
            elif ln is not None:
                if steps is None:
                    steps = batch(state0, letters[np.array([w[:1] for w in lh])])[1]
                steps = steps + m
            ctx.trans(len(lh))
        if ln is not None and ln.ndim == 1:
            ctx.close('likelihood of a long history is the sum over the steps', ln, steps, 1e3 * tol, rtol=10 * tol, describe=d(lh, L))
        ctx.trace(len(lh))
    # a very long history: the whole against its parts
    vl = very_long_words()[:2]
    vy = alphabet[np.array(vl) % len(alphabet)]
    spread = lambda st, n: jax.tree_util.tree_map(lambda v: np.broadcast_to(np.asarray(v), (n,) + np.shape(v)), st)
    va, vn = jax.tree_util.tree_map(np.asarray, compiled(spread(state0, 2), vy))
    if all(np.all(np.isfinite(v)) for v in va):
        for t in (37, 1037):
            pa, pn = jax.tree_util.tree_map(np.asarray, compiled(spread(state0, 2), vy[:, :t]))
            b, m = jax.tree_util.tree_map(np.asarray, compiled(cut(va, t - 1), vy[:, t:]))
            for v, u, w in zip(va, pa, b):
                ctx.ok(v.shape[:2] == (2, len(vl[0])), 'one output per measurement', case, v.shape)
                ctx.close('the output depends on later measurements (very long history)', u, v[:, :t], tol, rtol=tol, describe=d(vl, t))
                ctx.close('restart from the output (very long history)', w, v[:, t:], tol, rtol=tol, describe=d(vl, t))
            if vn is not None and vn.ndim == 2:
                ctx.close('likelihoods of the parts add up (very long history)', pn[:, -1:] + m, vn[:, t:], 1e2 * tol, rtol=tol, describe=d(vl, t))
            elif vn is not None:
                ctx.close('likelihoods of the parts add up (very long history)', pn + m, vn, 1e2 * tol, rtol=tol, describe=d(vl, t))
            ctx.trans(2 * len(vl[0]))
            ctx.trace(4)
        ctx.state((str(case), 'very long'))
    # two long histories agree up to the first difference
    for a in range(len(alphabet)):
        const, cn = done[(a,) * L]
        for h, (v, n) in done.items():
            t = next((i for i in range(L) if h[i] != a), L)
            if t in (0, L):
                continue
            for u, w in zip(v, const):
                if np.all(np.isfinite(w[:t])):
                    ctx.close('the output depends on later measurements (long history)', u[:t], w[:t], tol, rtol=tol, case=dict(case, history=h, cut=t))
            if n is not None and n.ndim == 1 and np.all(np.isfinite(cn[:t])):
                ctx.close('the likelihood depends on later measurements (long history)', n[:t], cn[:t], tol, rtol=tol, case=dict(case, history=h, cut=t))
    # repetition, containers, eager
    h = hist[len(hist) // 2 + 1]
    i = len(hist) // 2 + 1
    y_np = np.array(ys[i])
    keep = y_np.copy()
    st_np = jax.tree_util.tree_map(lambda v: np.array(v), state0)
    st_keep = jax.tree_util.tree_map(lambda v: np.array(v), state0)
    e1, n1 = run(jax.tree_util.tree_map(jnp.asarray, st_np), jnp.asarray(y_np))
    e2, n2 = run(jax.tree_util.tree_map(jnp.asarray, st_np), jnp.asarray(y_np))
    for a, b, w in zip(e1, e2, arrs):
        ctx.ok(np.array_equal(np.asarray(a), np.asarray(b)), 'repeating a call changes its result', case)
        ctx.close('compiled and batched = plain', np.asarray(a), w[i], tol, rtol=tol, case=dict(case, history=h))
    if n1 is not None:
        ctx.ok(np.array_equal(np.asarray(n1), np.asarray(n2)), 'repeating a call changes its likelihood', case)
        ctx.close('compiled and batched = plain (likelihood)', np.asarray(n1), nll[i], tol, rtol=tol, case=dict(case, history=h))
    ctx.ok(np.array_equal(keep, y_np), 'measurements were modified', case)
    for a, b in zip(jax.tree_util.tree_leaves(st_np), jax.tree_util.tree_leaves(st_keep)):
        ctx.ok(np.array_equal(a, b), 'initial values were modified', case)
    # smoothers
    if smooth is not None:
        sm = jax.jit(jax.vmap(smooth))
        out = [np.asarray(v) for v in sm(*[jnp.asarray(v) for v in arrs])]
        if all(np.all(np.isfinite(v)) for v in out):
            for t in range(T):
                tail = [np.asarray(v) for v in sm(*[jnp.asarray(v[:, t:]) for v in arrs])]
                for v, w in zip(out, tail):
                    ctx.close('smoothing the tail', w, v[:, t:], tol, rtol=tol, describe=d(hist, t))
                ctx.trace(len(hist))
            h2 = sorted(done)[:: max(1, len(done) // size)][:size]
            la = [np.stack([done[h][0][k] for h in h2]) for k in range(len(arrs))]
            lo = [np.asarray(v) for v in sm(*[jnp.asarray(v) for v in la])]
            tail = [np.asarray(v) for v in sm(*[jnp.asarray(v[:, L // 2:]) for v in la])]
            for v, w in zip(lo, tail):
                ctx.close('smoothing the tail of a long history', w, v[:, L // 2:], tol, rtol=tol, describe=d(h2, L // 2))
            ctx.trace(len(h2))
            for v, w in zip(out, arrs):
                ctx.close('at the last time smoothing is filtering', v[:, -1], w[:, -1], 1e-14, describe=d(hist, T))
    ctx.outcomes.update(np.round(arrs[-1].reshape(len(hist), -1)[:, -1], 9).tolist())
    ctx.sample(dict(case, history=h))


def one(ctx, tier, k, N):
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_cms, moment_filter_rms, moment_filter_scms
    K = 2 * N
    f, q, g, _ = c03.model_1d(k, jnp)
    init = c03.model_1d(k, mp)[3]
    K0 = max(K, 3)
    r0 = [sum(w * u for w, u in zip([a[0] for a in init], col)) for col in zip(*[c03.normal_raw(m, v, K0) for _, m, v in init])]
    mean0, c0, s0, sc0 = c03.convert(r0)
    vec = lambda v: jnp.array([float(u) for u in v[:K]])
    allm = lambda x, m, s: jnp.stack(c03.normal_raw((f(x) - m) / s, q(x) / s ** 2, K + 1), axis=-1)
    pdf = lambda y, x: jnp.where(y == 0, g(0, x), jnp.where(y == 1, g(1, x), g(2, x)))
    mu0, sd0 = jnp.asarray(float(mean0)), jnp.asarray(float(s0))
    for stable in (False, True):
        case = dict(model=c03.MODELS[k], N=N, stable=stable)

        def raw(st, ys):
            a, n = moment_filter_rms(lambda x, n: allm(x, 0., 1.)[..., n], pdf, st[0], ys, stable)
            return (a,), n

        def cen(st, ys):
            a, b, n = moment_filter_cms(lambda x, n, m: allm(x, m, 1.)[..., n], f, pdf, st[0], st[1], ys, stable)
            return (a, b), n

        def sca(st, ys):
            a, b, c, n = moment_filter_scms(lambda x, n, m, s: allm(x, m, s)[..., n], lambda x: (f(x), q(x)), pdf, st[0], st[1], st[2], ys, stable)
            return (a, b, c), n

        # the restart of a filter recomputes the Gauss rule from rounded moments; the tolerance covers its conditioning
        tol = {1: 1e-12, 2: 1e-12, 3: 1e-11}.get(N, 1e-10)
        at = lambda a, t: tuple(v[t] for v in a)
        if N <= 5:
            explore(ctx, tier, dict(case, mode='raw'), raw, (vec(r0),), at, np.arange(3), tol, far=np.array([1000]))
        explore(ctx, tier, dict(case, mode='central'), cen, (vec(c0), mu0), at, np.arange(3), tol, far=np.array([1000]))
        if N > 1:
            explore(ctx, tier, dict(case, mode='scaled'), sca, (vec(sc0), mu0, sd0), at, np.arange(3), tol, far=np.array([1000]))


def nd(ctx, tier, k, d, N):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.filtering import moment_filter_nd_cms, moment_filter_nd_rms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    mis = graded_lexico(d, 2 * N - 1)
    f, q, g, _ = c03.model_nd(d, k, jnp)
    init = c03.model_nd(d, k, mp)[3]
    r0 = {n: mp.mpf(0) for n in mis}
    for w, m, v in init:
        for n, u in c03.mvn_moments(m, [[v if i == j else mp.mpf(0) for j in range(d)] for i in range(d)], mis).items():
            r0[n] += w * u
    mean0, c0, s0, sc0 = c03.convert_nd(r0, mis, d)
    vec = lambda m: jnp.array([float(m[n]) for n in mis])
    fm = lambda v: jnp.array([float(u) for u in v])

    def allm(x, mean, scale):
        mj = [(v - mean[i]) / scale[i] for i, v in enumerate(f(x))]
        qq = q(x)
        qq = [[qq[i][j] / (scale[i] * scale[j]) for j in range(d)] for i in range(d)]
        mm = c03.mvn_moments(mj, qq, mis)
        return jnp.stack([mm[n] * 1. for n in mis])

    va = lambda x, m, s: jax.vmap(lambda u: allm(u, m, s))(x)
    o, z = jnp.ones((d,)), jnp.zeros((d,))
    cmean = jax.vmap(lambda x: jnp.stack(f(x)))
    cmv = jax.vmap(lambda x: (jnp.stack(f(x)), jnp.stack([q(x)[i][i] + 0. * x[0] for i in range(d)])))
    pdf = lambda y, x: jnp.where(y == 0, g(0, x), jnp.where(y == 1, g(1, x), g(2, x)))
    order = (generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d))
    at = lambda a, t: tuple(v[t] for v in a)
    for stable in (False, True):
        case = dict(model=k, d=d, N=N, stable=stable)

        def raw(st, ys):
            a, n = moment_filter_nd_rms((lambda x, n: va(x, z, o)[..., n], 'index'), pdf, ys, order, st[0], stable=stable)
            return (a,), n

        def cen(st, ys):
            a, b, n = moment_filter_nd_cms((lambda x, n, m: va(x, m, o)[..., n], 'index'), cmean, pdf, ys, order, st[0], st[1], stable=stable)
            return (a, b), n

        def sca(st, ys):
            a, b, c, n = moment_filter_nd_scms((lambda x, n, m, s: va(x, m, s)[..., n], 'index'), cmv, pdf, ys, order, st[0], st[1], st[2], stable=stable)
            return (a, b, c), n

        tol = 1e-10
        explore(ctx, tier, dict(case, mode='raw'), raw, (vec(r0),), at, np.arange(3), tol, far=np.array([1000]))
        explore(ctx, tier, dict(case, mode='central'), cen, (vec(c0), fm(mean0)), at, np.arange(3), tol, far=np.array([1000]))
        if N > 1:
            explore(ctx, tier, dict(case, mode='scaled'), sca, (vec(sc0), fm(mean0), fm(s0)), at, np.arange(3), tol, far=np.array([1000]))


def kf(ctx, tier, dx, dy):
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import kf, rts
    s = Sys(dx, dy, linear=True)
    F, S, H, X = jnp.asarray(np.eye(dx) + 0.3 * s.A), jnp.asarray(0.3 * s.Q0), jnp.asarray(s.H), jnp.asarray(s.R0)

    def run(st, ys):
        a, b, n = kf(F, S, H, X, st[0], st[1], ys)
        return (a, b), n

    explore(ctx, tier, dict(dx=dx, dy=dy), run, (jnp.asarray(s.m0), jnp.asarray(s.v0)), lambda a, t: (a[0][t], a[1][t]), c12.letters(dy), 1e-11, far=30. * np.asarray(c12.letters(dy))[1:],
            smooth=lambda a, b: rts(F, S, a, b))


def gauss_(ctx, tier, kind, dx, dy, cd):
    import jax.numpy as jnp
    for const in (True, False):
        s = Sys(dx, dy, constR=const)
        dt = 0.1
        if cd:
            forms = c13.forms_of(s, kind, const)
        else:
            forms = c12.runners(kind, dx, lambda x, t: (s.m(x, t, jnp), s.Q(x, t, jnp)), lambda x: (s.h(x, jnp), s.R(x, jnp)), const)
        for lab, flt, smo in forms:
            if lab == 'rev_jacobian':
                continue

            def run(st, ys):
                a, b, n = flt(st[0], st[1], dt, ys)
                return (a, b), n

            explore(ctx, tier, dict(rule=kind, dx=dx, dy=dy, continuous=bool(cd), form=lab, constant_noise=const), run, (jnp.asarray(s.m0), jnp.asarray(s.v0)),
                    lambda a, t: (a[0][t], a[1][t]), c12.letters(dy), 1e-10, far=10. * np.asarray(c12.letters(dy))[1:], smooth=(lambda a, b: smo(a, b, dt)) if smo else None)


def grid(ctx, tier, method):
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    from mc.c10 import sdes_1d
    for name in ('ou', 'sine', 'affine noise'):
        _, drift, disp = sdes_1d()[name]
        if method == 'kolmogorov':
            disp_ = disp
            disp = lambda x: disp_(x) + 0. * x
        lo, hi, dt = (float(v) for v in c18.GRIDS[name])
        xs = jnp.linspace(lo, hi, 41)
        if method == 'kolmogorov':
            dt = 0.01
        p0 = jnp.exp(-0.5 * (xs - (lo + hi) / 2 - 0.3) ** 2 / 0.3)
        p0 = p0 / jnp.trapz(p0, xs)
        like, _, al = c18.likes('gauss')

        for sub in (1, 3):
            def run(st, ys):
                return (brute_force_filter(drift, disp, like, st[0], xs, ys, dt, integration_steps=sub, pred_method=method),), None

            explore(ctx, tier, dict(sde=name, method=method, sub=sub), run, (p0,), lambda a, t: (a[0][t],), al, 1e-10)
