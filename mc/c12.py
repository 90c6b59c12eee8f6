"""C12: extended and sigma-point Kalman filters and smoothers (discrete time) against textbook references, for every history."""
from fractions import Fraction as Fr

import numpy as np

from mc import lingauss as lg
from mc.common import FLOAT_TRUST, fl, words
from mc.hmm import very_long_words
from mc.nonlin import Filter, Sys

RULE = ('A state is the Gaussian approximation (mean, covariance, log-likelihood) after one measurement history; transitions are measurements. '
        'All histories over the alphabet up to the horizon are explored for every shape, integration rule, noise type and flag, and filter, '
        'likelihood and smoother outputs are compared at every step with a textbook recursion that uses hand-written Jacobians and '
        'independently generated sigma points; on linear models they are compared with exact rational conditioning instead.')
ASSUMPTIONS = [FLOAT_TRUST, 'models in which all covariances stay well conditioned']


def cfg(tier):
    return dict(T=4, dts=[0.1, 0.7], TL=25) if tier == 'quick' else dict(T=6, dts=[0.01, 0.1, 0.7], TL=80)


KINDS = ['ekf', 'cubature', '2', '3', '5']


def bounds(tier):
    c = cfg(tier)
    return dict(history_length=c['T'], alphabet=3, outlier_histories='5 letters, length 3', dx=[1, 2, 3], dy=[1, 2, 3], time_steps=c['dts'], rules=KINDS, long_history=c['TL'],
                noise=['constant', 'state dependent'], flags=['fwd_jacobian', 'const_measurement_cov'])


def units(tier):
    us = []
    for dx in (1, 2, 3):
        for dy in (1, 2, 3):
            for k in KINDS:
                if k == '5' and dx == 3 and tier == 'quick':
                    continue
                for c in (True, False):
                    us.append((f'{k} dx={dx} dy={dy} constant noise={c}', ['nonlinear', k, dx, dy, c], 5 + dx * dy))
                us.append((f'{k} outliers dx={dx} dy={dy}', ['outliers', k, dx, dy, (dx + dy) % 2 == 0], 5 + dx * dy))
                us.append((f'{k} units of measurement dx={dx} dy={dy}', ['units', k, dx, dy, (dx + dy) % 2 == 1], 6 + dx * dy))
                us.append((f'{k} linear dx={dx} dy={dy}', ['linear', k, dx, dy, True], 4 + dx))
    return us


def run_unit(ctx, tier, kind, rule, dx, dy, const):
    {'linear': linear, 'nonlinear': nonlinear, 'outliers': lambda *a: nonlinear(*a, far=True), 'units': in_units}[kind](ctx, tier, rule, dx, dy, const)


def letters(dy):
    return np.array([[0., 0., 0.], [1.2, -0.8, 0.4], [-1.5, 0.5, 2.]])[:, :dy]


def rule_of(kind, dx):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    return SigmaPoints.cubature(dx) if kind == 'cubature' else SigmaPoints.gauss_hermite(dx, int(kind)) if kind != '3' else SigmaPoints.gauss_hermite(dx)


def runners(kind, dx, state, meas, const):
    """Yields (label, filter(m0, v0, dt, ys), smoother(ms, vs, dt))."""
    from mfs.classical_filters_smoothers import gfs
    if kind == 'ekf':
        return [('default', lambda m, v, dt, ys: gfs.ekf(state, meas, m, v, dt, ys), lambda a, b, dt: gfs.eks(state, a, b, dt)),
                ('fwd_jacobian', lambda m, v, dt, ys: gfs.ekf(state, meas, m, v, dt, ys, fwd_jacobian=True), None),
                ('rev_jacobian', lambda m, v, dt, ys: gfs.ekf(state, meas, m, v, dt, ys, fwd_jacobian=False), None)]
    sg = rule_of(kind, dx)
    out = [('default', lambda m, v, dt, ys: gfs.sgp_filter(state, meas, sg, m, v, dt, ys), lambda a, b, dt: gfs.sgp_smoother(state, sg, a, b, dt))]
    if const:
        out.append(('const_measurement_cov', lambda m, v, dt, ys: gfs.sgp_filter(state, meas, sg, m, v, dt, ys, const_measurement_cov=True), None))
    return out


def nonlinear(ctx, tier, kind, dx, dy, const, far=False):
    import jax.numpy as jnp
    s = Sys(dx, dy, constR=const, mild=far)
    state = lambda x, dt: (s.m(x, dt, jnp), s.Q(x, dt, jnp))
    meas = lambda x: (s.h(x, jnp), s.R(x, jnp))
    case = dict(rule=kind, dx=dx, dy=dy, constant_noise=const)
    forms = runners(kind, dx, state, meas, const)
    if far:
        outliers(ctx, s, kind, False, forms, case)
    else:
        explore(ctx, tier, s, kind, False, forms, case)


def explore(ctx, tier, s, kind, cd, forms, case):
    import jax
    import jax.numpy as jnp
    c = cfg(tier)
    A = letters(s.dy)
    hist = words(range(3), c['T'])
    ys = jnp.asarray(A[np.array(hist)])
    periods = [w for L in (1, 2, 3) for w in words(range(3), L)]
    lh = [tuple(w[i % len(w)] for i in range(c['TL'])) for w in periods[::2]]
    starts = [(s.m0, s.v0), (-2. * s.m0, (0.1 if cd else 0.01) * s.v0)]
    for lab, flt, smo in forms:
        f = jax.jit(jax.vmap(flt, in_axes=[None, None, None, 0]))
        fl_ = jax.jit(jax.vmap(flt, in_axes=[None, None, None, 0]))
        sm = jax.jit(jax.vmap(smo, in_axes=[0, 0, None])) if smo else None
        for dt in ([0.05, 0.15] if cd else c['dts']):
            ref = Filter(s, kind, cd, dt)
            for b, (m0, v0) in enumerate(starts):
                cs = dict(case, form=lab, dt=dt, start=b)
                d = lambda i: dict(cs, history=hist[i[0]], step=i[1])
                memo = {(): (m0, v0, 0.)}
                for w in hist:
                    for t in range(1, len(w) + 1):
                        if w[:t] not in memo:
                            memo[w[:t]] = ref.step(*memo[w[:t - 1]], A[w[t - 1]])
                            ctx.state((kind, s.dx, s.dy, s.constR, dt, b, w[:t], cd))
                            ctx.trans()
                want = [np.array([[memo[w[:t]][j] for t in range(1, len(w) + 1)] for w in hist]) for j in range(3)]
                good = all(np.all(np.isfinite(w)) for w in want) and np.min(np.linalg.eigvalsh(want[1])) > 1e-4
                if not good:  # the approximation itself breaks down on this history
                    continue
                got = [np.asarray(v) for v in f(jnp.asarray(m0), jnp.asarray(v0), dt, ys)]
                for n, g, w in zip(('filtering mean', 'filtering covariance', 'negative log-likelihood'), got, want):
                    ctx.close(n, g, w, 1e-9, rtol=1e-9, case=cs, describe=d)
                ctx.trace(len(hist))
                ctx.outcomes.update(np.round(got[0][:, -1, 0], 9).tolist())
                if smo is not None:
                    a, q = [np.asarray(v) for v in sm(jnp.asarray(want[0]), jnp.asarray(want[1]), dt)]
                    ws = [backward(ref, m, v) for m, v in zip(want[0], want[1])]
                    ok = [k for k, w in enumerate(ws) if w is not None]
                    if ok:
                        d2 = lambda i: dict(cs, history=hist[ok[i[0]]], step=i[1])
                        ctx.close('smoothing mean', a[ok], np.array([ws[k][0] for k in ok]), 1e-8, rtol=1e-8, case=cs, describe=d2)
                        ctx.close('smoothing covariance', q[ok], np.array([ws[k][1] for k in ok]), 1e-8, rtol=1e-8, case=cs, describe=d2)
                    ctx.trace(len(hist))
                if b == 0 and dt <= 0.1:
                    e = flt(jnp.asarray(m0), jnp.asarray(v0), dt, ys[7])
                    for n, g, w in zip(('filtering mean', 'filtering covariance', 'negative log-likelihood'), e, want):
                        ctx.close(n + ' (eager)', g, w[7], 1e-9, rtol=1e-9, case=cs)
                    if smo is not None and ws[7] is not None:
                        e = smo(jnp.asarray(want[0][7]), jnp.asarray(want[1][7]), dt)
                        ctx.close('smoothing mean (eager)', e[0], ws[7][0], 1e-8, rtol=1e-8, case=cs)
                        e = smo(jnp.asarray(want[0][7, :1]), jnp.asarray(want[1][7, :1]), dt)
                        ctx.close('smoothing one step', e[1], want[1][7, :1], 1e-12, case=cs)
                    # long periodic histories, and a very long aperiodic one
                    for some in [lh] + [very_long_words()[:1]] * ((s.dx * s.dy <= 2 or bool(case.get('linear'))) and lab == 'default' and dt == ([0.05, 0.15] if cd else c['dts'])[0]):
                        lengthy(ctx, s, ref, A, some, m0, v0, dt, fl_, sm, cs)
    ctx.sample(dict(case, history=hist[-1]))


def lengthy(ctx, s, ref, A, lh, m0, v0, dt, flt, smo, cs):
    import jax.numpy as jnp
    W = []
    for w in lh:
        st, o = (m0, v0, 0.), []
        for i in w:
            st = ref.step(*st, A[i])
            o.append(st)
        W.append(o)
        ctx.trans(len(w))
    W = [np.array([[st[j] for st in o] for o in W]) for j in range(3)]
    if not (np.all(np.isfinite(W[2])) and np.min(np.linalg.eigvalsh(W[1])) > 1e-4):
        return
    d = lambda i: dict(cs, length=len(lh[0]), history=lh[i[0]][:25], step=i[1])
    g = [np.asarray(v) for v in flt(jnp.asarray(m0), jnp.asarray(v0), dt, jnp.asarray(A[np.array(lh)]))]
    for n, u, w in zip(('filtering mean', 'filtering covariance', 'negative log-likelihood'), g, W):
        ctx.close(n + ' (long)', u, w, 1e-8, rtol=1e-8, case=cs, describe=d)
    ctx.trace(len(lh))
    ctx.state((cs['rule'], s.dx, s.dy, dt, len(lh[0]), 'long'))
    if smo is not None:
        a, q = [np.asarray(v) for v in smo(jnp.asarray(W[0]), jnp.asarray(W[1]), dt)]
        for k in range(len(lh)) if len(lh) < 3 else range(0, len(lh), 5):
            w = backward(ref, W[0][k], W[1][k])
            if w is not None:
                ctx.close('smoothing mean (long)', a[k], w[0], 1e-8, rtol=1e-8, case=dict(cs, history=lh[k][:25]))
                ctx.close('smoothing covariance (long)', q[k], w[1], 1e-8, rtol=1e-8, case=dict(cs, history=lh[k][:25]))
                ctx.trace()


POWERS = [([-30] * 3, [-30] * 3), ([20] * 3, [25] * 3), ([15, -15, 4], [-9, 12, 3]), ([-12, 3, 20], [0, 0, 0])]


LOCATIONS = [([2. ** 16, -2. ** 17, 2. ** 15], [0., 0., 0.]), ([-2. ** 15, 0., 2. ** 16], [2. ** 16, -2. ** 15, 2. ** 14])]


def scales(dx, dy):
    for p, q in POWERS:
        yield 2. ** np.array(p[:dx]), 2. ** np.array(q[:dy]), np.zeros(dx), np.zeros(dy), (p[:dx], q[:dy])
    for p, q in LOCATIONS:
        yield np.ones(dx), np.ones(dy), np.array(p[:dx]), np.array(q[:dy]), ('origin', p[:dx], q[:dy])


def convert(forms, D, E, c, e):
    """Filters and smoothers of a model in other coordinates (x -> D x + c, y -> E y + e), their inputs and outputs in the original ones."""
    import jax.numpy as jnp
    DD = D[:, None] * D[None, :]
    shift = np.log(E).sum()
    out = []
    for lab, flt, smo in forms:
        def f(m, v, dt, ys, flt=flt):
            a, b, n = flt(m * D + c, v * DD, dt, ys * E + e)
            return (a - c) / D, b / DD, n - shift * jnp.arange(1, ys.shape[0] + 1)

        def g(a, b, dt, smo=smo):
            a, b = smo(a * D + c, b * DD, dt)
            return (a - c) / D, b / DD

        out.append((lab, f, g if smo else None))
    return out


def in_units(ctx, tier, kind, dx, dy, const):
    """State and measurements in other units (powers of two, exact in floats) and with other origins: no number is large or small in itself."""
    import jax.numpy as jnp
    s = Sys(dx, dy, constR=const, mild=True)
    for D, E, c, e, name in scales(dx, dy):
        state = lambda x, dt: (s.m((x - c) / D, dt, jnp) * D + c, s.Q((x - c) / D, dt, jnp) * (D[:, None] * D))
        meas = lambda x: (s.h((x - c) / D, jnp) * E + e, s.R((x - c) / D, jnp) * (E[:, None] * E))
        outliers(ctx, s, kind, False, convert(runners(kind, dx, state, meas, const), D, E, c, e), dict(rule=kind, dx=dx, dy=dy, constant_noise=const, powers_of_two=name), T=2)


def far_letters(dy):
    return np.array([[1e-6, 1e-6, -1e-6], [1.2, -0.8, 0.4], [60., -9., 3.], [-7., 40., 15.], [120., 8., -90.]])[:, :dy]


def outliers(ctx, s, kind, cd, forms, case, T=3):
    """Measurements of very different sizes; an outlier is a measurement like any other."""
    import jax
    import jax.numpy as jnp
    A, dt = far_letters(s.dy), 0.1
    hist = words(range(len(A)), T)
    ref = Filter(s, kind, cd, dt)
    memo = {(): (s.m0, s.v0, 0.)}
    for w in hist:
        for t in range(1, T + 1):
            if w[:t] not in memo:
                memo[w[:t]] = ref.step(*memo[w[:t - 1]], A[w[t - 1]])
                ctx.state(('far', kind, s.dx, s.dy, s.constR, cd, w[:t]))
                ctx.trans()
    want = [np.array([[memo[w[:t]][j] for t in range(1, T + 1)] for w in hist]) for j in range(3)]
    size = np.array([[1. + max(np.max(np.abs(A[v])) for v in w[:t]) for t in range(1, T + 1)] for w in hist])
    for lab, flt, smo in forms:
        cs = dict(case, form=lab)
        d = lambda i: dict(cs, history=[A[v].tolist() for v in hist[i[0]]], step=i[1])
        got = [np.asarray(v) for v in jax.jit(jax.vmap(flt, in_axes=[None, None, None, 0]))(jnp.asarray(s.m0), jnp.asarray(s.v0), dt, jnp.asarray(A[np.array(hist)]))]
        ctx.ok(got[0].shape == want[0].shape, 'shape of the means', cs, got[0].shape)
        # the sine of a state of size `size` is known to size * 1e-16 only
        ctx.close('filtering mean (outliers)', got[0] / size[..., None], want[0] / size[..., None], 1e-8, case=cs, describe=d)
        ctx.close('filtering covariance (outliers)', got[1] / size[..., None, None], want[1] / size[..., None, None], 1e-8, case=cs, describe=d)
        ctx.close('negative log-likelihood (outliers)', got[2] / size, want[2] / size, 1e-9, rtol=1e-8, case=cs, describe=d)
        ctx.trace(len(hist))
        if smo is not None:
            ws = [backward(ref, m, v) for m, v in zip(want[0], want[1])]
            ok = [k for k, w in enumerate(ws) if w is not None]
            a, q = [np.asarray(v) for v in jax.jit(jax.vmap(smo, in_axes=[0, 0, None]))(jnp.asarray(want[0]), jnp.asarray(want[1]), dt)]
            d2 = lambda i: dict(cs, history=[A[v].tolist() for v in hist[ok[i[0]]]], step=i[1])
            sz = size[ok, -1][:, None, None]
            ctx.close('smoothing mean (outliers)', a[ok] / sz, np.array([ws[k][0] for k in ok]) / sz, 1e-8, case=cs, describe=d2)
            ctx.close('smoothing covariance (outliers)', q[ok] / sz[..., None], np.array([ws[k][1] for k in ok]) / sz[..., None], 1e-8, case=cs, describe=d2)
            ctx.trace(len(ok))
    ctx.sample(dict(case, history=hist[-1]))


def backward(ref, ms, vs):
    """Reference smoother; None where the backward Gaussian approximation loses positive definiteness."""
    try:
        m, v = ref.smooth(ms, vs)
    except np.linalg.LinAlgError:
        return None
    return (m, v) if np.all(np.isfinite(v)) and np.min(np.linalg.eigvalsh(v)) > 1e-4 else None


def linear(ctx, tier, kind, dx, dy, const):
    """On a linear-Gaussian model the filters and smoothers are exact."""
    import jax
    import jax.numpy as jnp
    from mc.c11 import alphabet, params
    T = 3
    A = alphabet(dy) + [tuple(Fr(v) for v in r) for r in far_letters(dy)[2:].tolist()]
    hist = [w for w in words(range(len(A)), T) if sum(i > 2 for i in w) <= (1 if dx > 1 else 3)]
    size = np.array([max(1., *(abs(float(v)) for i in w for v in A[i])) for w in hist])[:, None, None]
    ys = jnp.asarray(np.array([[fl(A[i]) for i in w] for w in hist]))
    for model in lg.models(dx, dy)[:2]:
        F, S, H, X, m0, v0 = params(model)
        state = lambda x, dt: (F @ x, S)
        meas = lambda x: (H @ x, X)
        wm, wv, wn = np.zeros((len(hist), T, dx)), np.zeros((len(hist), T, dx, dx)), np.zeros((len(hist), T))
        for t in range(1, T + 1):
            at, cov = model.posterior(t)
            wv[:, t - 1] = fl(cov[-1])
            for k, w in enumerate(hist):
                mm, nl = at([A[i] for i in w[:t]])
                wm[k, t - 1], wn[k, t - 1] = fl(mm[-1]), float(nl)
                ctx.state((model.name, dx, dy, kind, w[:t]))
                ctx.trans()
        sm = np.array([fl(at([A[i] for i in w])[0]) for w in hist])
        case = dict(model=model.name, dx=dx, dy=dy, rule=kind)
        d = lambda i: dict(case, history=hist[i[0]], step=i[1])
        for lab, flt, smo in runners(kind, dx, state, meas, True):
            a, b, n = jax.jit(jax.vmap(flt, in_axes=[None, None, None, 0]))(m0, v0, 0.3, ys)
            ctx.close('exact filtering mean', a / size, wm / size, 1e-8, rtol=1e-8, case=dict(case, form=lab), describe=d)
            ctx.close('exact filtering covariance', b, wv, 1e-8, rtol=1e-8, case=dict(case, form=lab), describe=d)
            ctx.close('exact negative log-likelihood', n, wn, 1e-7, rtol=1e-8, case=dict(case, form=lab), describe=d)
            ctx.trace(len(hist))
            if smo is not None:
                a, b = jax.jit(jax.vmap(smo, in_axes=[0, 0, None]))(a, b, 0.3)
                ctx.close('exact smoothing mean', a / size, sm / size, 1e-8, rtol=1e-8, case=dict(case, form=lab), describe=d)
                ctx.close('exact smoothing covariance', b, np.broadcast_to(fl(cov), b.shape), 1e-8, rtol=1e-8, case=dict(case, form=lab), describe=d)
    # a very long history of a model with a transition that is not stable
    model = lg.unstable(dx, dy)
    F, S, H, X, m0, v0 = map(np.asarray, params(model))
    w = very_long_words()[1]
    ys = np.array([fl(A[i]) for i in w])
    m, v, n, want = m0, v0, 0., []
    for y in ys:
        m, v = F @ m, F @ v @ F.T + S
        Sy = H @ v @ H.T + X
        K = np.linalg.solve(Sy, H @ v).T
        r = y - H @ m
        n += 0.5 * (r @ np.linalg.solve(Sy, r) + np.linalg.slogdet(2 * np.pi * Sy)[1])
        m, v = m + K @ r, v - K @ Sy @ K.T
        v = (v + v.T) / 2
        want.append((m, v, n))
    sc = max(1., max(np.abs(q[1]).max() for q in want))
    for lab, flt, _ in runners(kind, dx, lambda x, dt: (jnp.asarray(F) @ x, jnp.asarray(S)), lambda x: (jnp.asarray(H) @ x, jnp.asarray(X)), True):
        got = jax.jit(flt)(jnp.asarray(m0), jnp.asarray(v0), 0.3, jnp.asarray(ys))
        cs = dict(model=model.name, dx=dx, dy=dy, rule=kind, form=lab, length=len(w))
        for j, name in enumerate(('mean', 'covariance')):
            ctx.close(f'exact filtering {name} (very long)', got[j], np.array([q[j] for q in want]), 1e-8 * sc, rtol=1e-8, case=cs)
        ctx.close('exact negative log-likelihood (very long)', got[2], np.array([q[2] for q in want]), 1e-7, rtol=1e-8, case=cs)
        ctx.state((model.name, dx, dy, kind, lab))
        ctx.trans(len(w))
        ctx.trace()
    ctx.sample(dict(dx=dx, dy=dy, rule=kind))
