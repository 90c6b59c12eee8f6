"""C23: the benchmark models, and end-to-end filtering on them, for every measurement history."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc import gauss
from mc.c07 import reference as graded_lexico
from mc.c03 import mvn_moments as mvn_mp, normal_raw as normal_mp
from mc.c09 import mvn_moments, normal_raw
from mc.c17 import Keys
from mc.common import FLOAT_TRUST, words
from mc.generator import Poly, Sde
from mc.tape import patched, shape_of

RULE = ('End to end: a state is the filtering law of a benchmark model after one measurement history; all histories over the alphabet up to the '
        'horizon are run through every moment filter (raw, central, scaled; TME, TME-Normal transitions) and through the grid filter, and mean, '
        'variance and marginal likelihood must agree with an independent fine-grid Bayes recursion within the accuracy of the representation. Models: '
        'initial laws, probability mass functions (all outcomes), drifts and dispersions on a grid against their definitions; simulators with the '
        'random generator replaced by a tape against the reference recursion.')
ASSUMPTIONS = [FLOAT_TRUST, 'accuracy tolerances of the end-to-end comparison are those of the moment representation at the order used']


def cfg(tier):
    return dict(T=5, N=[3, 5, 7], pp=3) if tier == 'quick' else dict(T=8, N=[3, 4, 5, 6, 7, 8, 9], pp=5)


def bounds(tier):
    c = cfg(tier)
    return dict(horizon=c['T'], N=c['N'], prey_predator_horizon=c['pp'], models=['benes_bernoulli', 'well_poisson', 'satellite_orbital_stability', 'prey_predator'])


def units(tier):
    c = cfg(tier)
    us = []
    for m in ('benes', 'well'):
        for N in c['N']:
            us.append((f'{m} filters N={N}', ['end', m, N], 20))
        us.append((f'{m} definition', ['def1', m, 0], 6))
        us.append((f'{m} simulator', ['sim1', m, 0], 20))
        us.append((f'{m} grid filter', ['grid', m, 0], 8))
    us += [('satellite', ['sat', '', 0], 3), ('prey-predator definition', ['defpp', '', 0], 8), ('prey-predator simulator', ['simpp', '', 0], 10)]
    for N in (2, 3):
        us.append((f'prey-predator filters N={N}', ['endpp', '', N], 20))
    return us


def run_unit(ctx, tier, what, *a):
    {'end': end, 'def1': def1, 'sim1': sim1, 'grid': grid, 'sat': sat, 'defpp': defpp, 'simpp': simpp, 'endpp': endpp}[what](ctx, tier, *a)


P1, P2 = Fr(3), Fr(2)


def load(m, N, p1=P1):
    from mfs.one_dim import ss_models
    if m == 'benes':
        dt, T, ts, init, drift, disp, emission, pmf, simulate = ss_models.benes_bernoulli(N)
        return dt, T, ts, init, drift, disp, emission, pmf, simulate
    dt, T, ts, init, drift, disp, emission, pmf, simulate = ss_models.well_poisson(float(p1), N)
    return dt, T, ts, init, lambda x: drift(x, float(p1)), disp, lambda x: emission(x, float(P2)), lambda y, x: pmf(y, x, float(P2)), simulate


def np_emission(m):
    if m == 'benes':
        return lambda x: 1 / (1 + np.exp(-x ** 3 / 5))
    return lambda x: np.log1p(np.exp(float(P2) * x))


def np_pmf(m):
    e = np_emission(m)
    if m == 'benes':
        return lambda y, x: e(x) if y == 1 else 1 - e(x)
    return lambda y, x: e(x) ** y * np.exp(-e(x)) / math.factorial(int(y))


ALPHABET = {'benes': [0, 1], 'well': [0, 1, 4]}


def sde_of(m, p1=P1):
    if m == 'benes':
        return Sde('benes', 1, 1, lambda s, one: ([s[1]], [[one]], [[one + s[1] * s[1] * -1]]), lambda v: [v[0], mp.tanh(v[0])])
    return Sde('well', 1, 0, lambda s, one: ([s[0] + s[0] * s[0] * s[0] * -p1], [[one]], []), lambda v: v)


def np_tme(m, order, p1=P1):
    """x, dt -> mean and variance of the TME of the given order, vectorised, from the exact generator algebra."""
    sde = sde_of(m, p1)
    A1 = [sde.power((1,), r) for r in range(order + 1)]
    A2 = [sde.power((2,), r) for r in range(order + 1)]

    def ev(p, syms):
        t = 0.
        for k, c in p.items():
            term = float(c)
            for v, e in zip(syms, k):
                term = term * v ** e
            t = t + term
        return t

    def f(x, dt):
        syms = [x, np.tanh(x)] if m == 'benes' else [x]
        a1 = [ev(p, syms) for p in A1]
        a2 = [ev(p, syms) for p in A2]
        mean = sum(dt ** r / math.factorial(r) * a1[r] for r in range(order + 1))
        var = sum(dt ** r / math.factorial(r) * (a2[r] - sum(math.comb(r, k) * a1[k] * a1[r - k] for k in range(r + 1))) for r in range(1, order + 1))
        return mean, var

    return f


def init_pdf(xs):
    return sum(0.5 * np.exp(-0.5 * (xs - mu) ** 2 / 0.05) / np.sqrt(2 * np.pi * 0.05) for mu in (-0.5, 0.5))


def fine_grid(m, T, n=801, lo=-4., hi=4.):
    """Independent Bayes recursion on a fine grid: {history: (mean, variance, central moments.., nll)}."""
    xs = np.linspace(lo, hi, n)
    w = np.full(n, xs[1] - xs[0])
    w[[0, -1]] /= 2
    mean, var = np_tme(m, 3)(xs, 0.01)
    K = np.exp(-0.5 * (xs[:, None] - mean[None]) ** 2 / var[None]) / np.sqrt(2 * np.pi * var[None]) * w[None]
    pmf = np_pmf(m)
    out = {(): (init_pdf(xs), 0.)}
    res = {}
    for t in range(1, T + 1):
        for h in words(ALPHABET[m], t):
            p, nll = out[h[:-1]]
            p = pmf(h[-1], xs) * (K @ p)
            z = np.sum(w * p)
            p = p / z
            nll = nll - np.log(z)
            out[h] = (p, nll)
            mu = np.sum(w * p * xs)
            res[h] = np.array([mu] + [np.sum(w * p * (xs - mu) ** k) for k in (2, 3, 4)] + [nll])
    return res, xs, out


def summary(mode, out):
    """(mean, central moments 2..4) over time, and the final nll."""
    if mode == 'raw':
        r, nll = out
        r = np.asarray(r)
        mu = r[..., 1]
        c2 = r[..., 2] - mu ** 2
        c3 = r[..., 3] - 3 * mu * r[..., 2] + 2 * mu ** 3
        c4 = r[..., 4] - 4 * mu * r[..., 3] + 6 * mu ** 2 * r[..., 2] - 3 * mu ** 4
    elif mode == 'central':
        c, mu, nll = map(np.asarray, out)
        c2, c3, c4 = c[..., 2], c[..., 3], c[..., 4]
    else:
        s, mu, sc, nll = map(np.asarray, out)
        c2, c3, c4 = s[..., 2] * sc ** 2, s[..., 3] * sc ** 3, s[..., 4] * sc ** 4
    return np.stack([np.asarray(mu), c2, c3, c4], axis=-1), np.asarray(nll)


def mp_pmf(m):
    if m == 'benes':
        def f(y, x):
            e = 1 / (1 + mp.exp(-x ** 3 / 5))
            return e if y == 1 else 1 - e
    else:
        def f(y, x):
            e = mp.log(1 + mp.exp(2 * x))
            return e ** y * mp.exp(-e) / math.factorial(int(y))
    return f


def projection(ctx, m, N, trans, order, T):
    """{history: (raw moments, nll)} of the Gauss-projection recursion in 60 digits, transition moments from the exact generator algebra."""
    K = 2 * N
    sde, pmf, dt = sde_of(m), mp_pmf(m), mp.mpf(1) / 100
    A = [[sde.power((n,), r) for r in range(order + 1)] for n in range(max(K, 3))]

    def cond(x):
        v = sde.values([x])
        if trans == 'tme':
            return [sum(dt ** r / math.factorial(r) * sde.evaluate(p, v) for r, p in enumerate(A[n])) for n in range(K)]
        a1, a2 = [sde.evaluate(p, v) for p in A[1]], [sde.evaluate(p, v) for p in A[2]]
        mean = sum(dt ** r / math.factorial(r) * a1[r] for r in range(order + 1))
        var = sum(dt ** r / math.factorial(r) * (a2[r] - sum(math.comb(r, k) * a1[k] * a1[r - k] for k in range(r + 1))) for r in range(1, order + 1))
        return normal_mp(mean, var, K)

    r0 = [(a + b) / 2 for a, b in zip(normal_raw(Fr(-1, 2), Fr(1, 20), K), normal_raw(Fr(1, 2), Fr(1, 20), K))]
    out = {(): ([mp.mpf(v.numerator) / v.denominator for v in map(Fr, r0)], mp.mpf(0))}
    for t in range(1, T + 1):
        for h0 in words(ALPHABET[m], t - 1):
            rms, nll = out[h0]
            xs, ws = gauss.gauss_1d(rms, N)
            tabs = [cond(x) for x in xs]
            pred = [mp.fsum(w * tb[n] for w, tb in zip(ws, tabs)) for n in range(K)]
            xs, ws = gauss.gauss_1d(pred, N)
            for y in ALPHABET[m]:
                g = [w * pmf(y, x) for w, x in zip(ws, xs)]
                z = mp.fsum(g)
                out[h0 + (y,)] = ([mp.fsum(w * x ** n for w, x in zip(g, xs)) / z for n in range(K)], nll - mp.log(z))
                ctx.state((m, N, trans, h0 + (y,)))
                ctx.trans()
    return out


def end(ctx, tier, m, N):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import filtering, moments
    T = cfg(tier)['T'] - (m == 'well')
    dt, _, _, init, drift, disp, _, pmf, _ = load(m, N)
    ref, _, _ = fine_grid(m, T)
    hist = words(ALPHABET[m], T)
    ys = jnp.asarray(np.array(hist))
    fine = np.array([[ref[h[:t]] for t in range(1, T + 1)] for h in hist])
    # accuracy of the representation with N nodes against the exact filter (gross-error bound), see DESIGN.md
    loose = {3: 1., 4: 0.5, 5: 0.06}.get(N, 0.03) if m == 'well' else {3: 0.15, 4: 0.05, 5: 6e-3}.get(N, 2e-3)
    tight = 1e-11 if N <= 5 else 1e-9
    order = 3 if tier == 'thorough' and N == 3 else 2
    for trans in ('tme', 'normal'):
        tree = projection(ctx, m, N, trans, order, T)
        summ = np.array([[[float(v) for v in summary_mp(tree[h[:t]][0])] for t in range(1, T + 1)] for h in hist])
        wnll = np.array([float(tree[h][1]) for h in hist])
        if trans == 'tme':
            r, c, s, cm, cmv = moments.sde_cond_moments_tme(drift, disp, dt, order)
        else:
            r, c, s, cm, cmv = moments.sde_cond_moments_tme_normal(drift, disp, dt, order, N)
        for mode, stable in itertools.product(('raw', 'central', 'scaled'), (False, True)):
            if stable and trans == 'tme' and N == 7:
                continue
            if mode == 'raw':
                fn = lambda y: filtering.moment_filter_rms(r, pmf, init.rms, y, stable=stable)
            elif mode == 'central':
                fn = lambda y: filtering.moment_filter_cms(c, cm, pmf, init.cms, init.mean, y, stable=stable)
            else:
                fn = lambda y: filtering.moment_filter_scms(s, cmv, pmf, init.scms, init.mean, jnp.sqrt(init.variance), y, stable=stable)
            got, nll = summary(mode, jax.jit(jax.vmap(fn))(ys))
            case = dict(model=m, N=N, transition=trans, mode=mode, stable=stable)
            desc = lambda i: dict(case, measurements=hist[i[0]])
            ctx.close(f'{mode}: mean and central moments of the projection recursion', got, summ, tight, describe=desc)
            ctx.close(f'{mode}: negative log-likelihood of the projection recursion', nll, wnll, tight, describe=desc)
            ctx.close(f'{mode}: mean and central moments of the exact filter', got, fine[..., :4], loose, describe=desc)
            ctx.close(f'{mode}: negative log-likelihood of the exact filter', nll, fine[:, -1, 4], loose, describe=desc)
            ctx.trace(len(hist))
            ctx.outcomes.update(np.round(nll, 9).tolist())
    ctx.sample(case)


def summary_mp(r):
    mu = r[1]
    return [mu] + [mp.fsum(mp.binomial(n, j) * r[j] * (-mu) ** (n - j) for j in range(n + 1)) for n in (2, 3, 4)]


def grid(ctx, tier, m, _):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    T = cfg(tier)['T'] - 2
    dt, _, _, init, drift, disp, _, pmf, _ = load(m, 2)
    ref, xs, out = fine_grid(m, T, 401, -4., 4.) if m == 'benes' else fine_grid(m, T, 401, -2.5, 2.5)
    hist = words(ALPHABET[m], T)
    p0 = init.pdf(jnp.asarray(xs))
    ctx.close('initial density', p0, init_pdf(xs), 1e-12, case=m)
    for method, tol in (('chapman-tme-3', 1e-8), ('chapman-tme-2', 1e-4 if m == 'benes' else 5e-3), ('chapman-euler', 5e-2 if m == 'benes' else 0.3)):
        got = np.asarray(jax.jit(jax.vmap(lambda y: brute_force_filter(drift, disp, pmf, p0, jnp.asarray(xs), y, dt, pred_method=method)))(jnp.asarray(np.array(hist))))
        for i, h in enumerate(hist):
            want = np.stack([out[h[:t]][0] for t in range(1, T + 1)])
            ctx.close('filtering density', got[i], want, tol, case=dict(model=m, method=method, measurements=h))
            for t in range(T):
                ctx.state((m, method, h[:t + 1]))
            ctx.trans(T)
            ctx.trace()
    ctx.sample(dict(model=m))


def def1(ctx, tier, m, _):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import ss_models
    for N in (None, 1, 2, 3, 5, 8):
        if N is None:
            dt, T, ts, init = (ss_models.benes_bernoulli() if m == 'benes' else ss_models.well_poisson(3.))[:4]
            N = 2
        else:
            dt, T, ts, init, drift, disp, em, pmf, _ = load(m, N)
        ctx.ok(dt == 0.01 and T == {'benes': 100, 'well': 1000}[m], 'time step and horizon', m, (dt, T))
        ctx.close('times', ts, 0.01 * np.arange(1, T + 1), 1e-12, case=m)
        rms = [(a + b) / 2 for a, b in zip(normal_raw(Fr(-1, 2), Fr(1, 20), 2 * N), normal_raw(Fr(1, 2), Fr(1, 20), 2 * N))]
        var = Fr(3, 10)
        ctx.close('raw moments of the initial law', init.rms, [float(v) for v in rms], 1e-12, rtol=1e-11, case=(m, N))
        ctx.close('central moments of the initial law', init.cms, [float(v) for v in rms], 1e-12, rtol=1e-11, case=(m, N))
        ctx.close('scaled moments of the initial law', init.scms, [float(v) / float(var) ** (i / 2) for i, v in enumerate(rms)], 1e-11, rtol=1e-10, case=(m, N))
        ctx.close('mean and variance of the initial law', [float(init.mean), float(init.variance)], [0., 0.3], 1e-13, case=(m, N))
        ctx.state((m, N))
        ctx.trans()
        ctx.trace()
    # far states: arguments of exp between -690 and 690
    x = np.concatenate([[-345., -200., -60., -20.], [-15., -12., -9., -7., -5.], [5., 7., 9., 12., 15.], [20., 60., 200., 345.]][slice(1, 3) if m == 'benes' else slice(0, 4)])
    xj = jnp.asarray(x)
    ctx.close('drift (far states)', drift(xj), np.tanh(x) if m == 'benes' else x - 3 * x ** 3, 1e-12, rtol=1e-12, case=m)
    far = [1 / (1 + mp.exp(-mp.mpf(v) ** 3 / 5)) if m == 'benes' else mp.log(1 + mp.exp(float(P2) * mp.mpf(v))) for v in x]
    ctx.close('emission (far states)', em(xj), [float(v) for v in far], 1e-15 if m == 'well' else 0., rtol=1e-10, case=m)
    for y in (0, 1) if m == 'benes' else (0, 1, 5, 30, 120):
        want = [float((e if y else 1 - e) if m == 'benes' else e ** y * mp.exp(-e) / mp.factorial(y)) for e in far]
        ctx.close('probability of an outcome (far states)', pmf(y, xj), want, 1e-15 if y else 3e-15, rtol=1e-10, case=(m, y))
        ctx.state((m, 'far', y))
        ctx.trans(len(x))
        ctx.trace()
    x = np.concatenate([np.linspace(-4, 4, 65), [0., 1e-3]])
    xj = jnp.asarray(x)
    ones = np.ones_like(x)
    ctx.close('drift', drift(xj), np.tanh(x) if m == 'benes' else x - 3 * x ** 3, 1e-12, case=m)
    ctx.close('dispersion', disp(xj) * ones, ones, 0., case=m)
    ctx.close('emission', em(xj), np_emission(m)(x), 1e-12, rtol=1e-12, case=m)
    top = 2 if m == 'benes' else 60
    tab = np.array([np.asarray(pmf(y, xj)) for y in range(top)])
    ctx.ok(np.all(tab >= 0), 'negative probability', m)
    ctx.close('the probabilities do not sum to one', tab.sum(0), ones, 1e-10, case=m)
    for y in range(min(top, 12)):
        ctx.close('probability of an outcome', tab[y], np_pmf(m)(y, x), 1e-11, rtol=1e-10, case=(m, y))
        ctx.close('probability of an outcome (scalar, compiled)', jax.jit(pmf)(y, jnp.asarray(0.7)), np_pmf(m)(y, 0.7), 1e-12, rtol=1e-10, case=(m, y))
        ctx.state((m, 'y', y))
        ctx.trans()
        ctx.trace()
    if m == 'well':
        _, _, _, _, dr, _, e2, pm2, _ = ss_models.well_poisson(3., 2)
        for p in (-2., 0., 0.01, 0.5, 1., 4., 60., 170.):
            ctx.close('drift (parameter)', dr(xj, p), x * (1 - p * x ** 2), 1e-12, rtol=1e-12, case=p)
            ctx.close('emission (parameter)', e2(xj, p), np.log1p(np.exp(p * x)), 1e-12, rtol=1e-12, case=p)
            with np.errstate(over='ignore'):
                ctx.close('probability (parameter)', pm2(3, xj, p), np.log1p(np.exp(p * x)) ** 3 / 6 / (1 + np.exp(p * x)), 1e-12, rtol=1e-9, case=p)
    ctx.sample(dict(model=m))


def wave(shape, k):
    n = int(np.prod(shape))
    i = np.arange(n)
    return (1.3 * np.sin(0.37 * (k + 1) * i + k) + 0.9 * np.cos(1.9 * i)).reshape(shape)


def sim1(ctx, tier, m, _):
    """Simulator: TME of order 3, 100 sub-steps per time step, the increments given by a tape."""
    import jax
    import jax.numpy as jnp
    T = {'benes': 100, 'well': 1000}[m]
    for k, x0 in enumerate((0.3, -1.1) if tier == 'quick' else (0.3, -1.1, 0., 1.4)):
        drawn, p1 = [], [Fr(3), Fr(3, 2), Fr(5), Fr(1, 2)][k]
        f = np_tme(m, 3, p1)

        def normal(key, *a, **kw):
            s = shape_of(a, kw)
            drawn.append(s)
            return jnp.asarray(wave(s, k))

        with patched(normal=normal):
            got = np.asarray(load(m, 2, p1)[-1](x0, jax.random.PRNGKey(0)))
        ctx.ok(got.shape == (T,), 'shape of the trajectory', m, got.shape)
        if sum(int(np.prod(s)) for s in drawn) == T * 100:
            z = wave((T, 100), k)
            x, ref = x0, []
            for row in z:
                for v in row:
                    mu, var = f(x, 0.01 / 100)
                    x = mu + math.sqrt(var) * v
                ref.append(x)
            ctx.close('simulated trajectory', got, ref, 1e-8, case=dict(model=m, x0=x0, tape=k, p1=p1))
        ctx.state((m, k))
        ctx.trans(T * 100)
        ctx.trace()
    sim = load(m, 2)[-1]
    outs = [np.asarray(sim(0.1, jax.random.PRNGKey(s))) for s in range(3)]
    ctx.ok(all(np.all(np.isfinite(o)) for o in outs) and len({o.tobytes() for o in outs}) == 3, 'trajectories of different keys', m)
    # quadratic variation is T dt: holds for every path up to O(dt^1/2) of the sub-sampled path; a gross-error bound
    qv = [float(np.sum(np.diff(o) ** 2)) / (T * 0.01) for o in outs]
    ctx.ok(all(0.4 < q < 1.9 for q in qv), 'quadratic variation of the trajectory', m, qv)
    ctx.sample(dict(model=m))


def sat(ctx, tier, *_):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.ss_models import satellite_orbital_stability
    pts = list(itertools.product((-2., -0.5, 0., 1., 3., 50., -1000.), repeat=2))
    for abc in list(itertools.product((0.5, 1, 2), repeat=3)) + [None]:
        drift, disp = satellite_orbital_stability(*(abc or ()))
        a, b, c = abc or (1, 1, 1)
        for x in pts:
            xj = jnp.asarray(x)
            case = dict(parameters=abc, x=x)
            ctx.close('drift', drift(xj), [x[1], -b * x[1] - math.sin(x[0]) - c * math.sin(2 * x[0])], 1e-12, rtol=1e-12, case=case)
            ctx.close('dispersion', disp(xj), [[0, 0], [0, -a * b * x[1] - b * math.sin(x[0])]], 1e-12, rtol=1e-12, case=case)
            ctx.state((abc, x))
            ctx.trans()
            ctx.trace()
    ctx.sample(case)


def pp(N):
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    from mfs.multi_dims.ss_models import prey_predator
    mis = generate_graded_lexico_multi_indices(2, 2 * N - 1, 0)
    return mis, prey_predator(mis)


def defpp(ctx, tier, *_):
    import jax
    import jax.numpy as jnp
    for N in (1, 2, 3, 4):
        mis, (dt, T, ts, gs, drift, disp, em, pmf, _) = pp(N)
        ctx.ok(dt == 1e-3 and T == 2000, 'time step and horizon', N)
        ctx.close('times', ts, 1e-3 * np.arange(1, T + 1), 1e-12, case=N)
        t = [tuple(int(v) for v in r) for r in mis]
        I = lambda s: [[s, Fr(0)], [Fr(0), s]]
        tabs = [mvn_moments([Fr(1), Fr(1)], I(Fr(k, 1000)), t) for k in (1, 2)]
        cen = [mvn_moments([Fr(0), Fr(0)], I(Fr(k, 1000)), t) for k in (1, 2)]
        ctx.close('raw moments of the initial law', gs.rms, [float(sum(a[n] for a in tabs) / 2) for n in t], 1e-12, case=N)
        ctx.close('central moments of the initial law', gs.cms, [float(sum(a[n] for a in cen) / 2) for n in t], 1e-14, case=N)
        ctx.close('mean', gs.mean, [1., 1.], 1e-13, case=N)
        ctx.close('covariance', gs.cov, np.eye(2) * 0.0015, 1e-13, case=N)
        ctx.state(N)
        ctx.trans()
        ctx.trace()
    for x in itertools.product((-8., -1., 0., 0.5, 1., 2., 3., 8.), repeat=2):
        xj = jnp.asarray(x)
        ctx.close('drift', drift(xj), [x[0] * (4 - 4 * x[1]), x[1] * (4 * x[0] - 4)], 1e-12, case=x)
        ctx.close('dispersion', disp(xj), np.diag([0.1 * x[0], 0.1 * x[1]]), 1e-13, case=x)
        e = 1 / (1 + math.exp(1 - x[0] ** 3))
        ctx.close('emission', em(xj[0]), e, 0., rtol=1e-11, case=x)
        got = [float(jax.jit(pmf)(y, xj)) for y in (0, 1)]
        ctx.close('probabilities', got, [1 - e, e], 1e-12, case=x)
        ctx.ok(abs(sum(got) - 1) < 1e-12, 'the probabilities do not sum to one', x)
        ctx.state(x)
        ctx.trans()
        ctx.trace()
    ctx.sample(dict(N=4))


def simpp(ctx, tier, *_):
    """Milstein simulator with tapes; the default and other numbers of sub-steps."""
    import jax
    import jax.numpy as jnp
    for steps, k in ((None, 0), (100, 1), (1, 0), (3, 1)):
        seen, probs, keys = [], [], []

        def normal(key, *a, **kw):
            s = shape_of(a, kw)
            seen.append(s)
            return jnp.asarray(wave(s, k) if np.prod(s) > 10 else 0.7 * np.ones(s))

        def choice(key, a, shape=(), replace=True, p=None, **kw):
            return jnp.ones(shape, dtype=int)

        def bernoulli(key, p=0.5, shape=None):
            probs.append(p)
            return jnp.asarray(p) > 0.5

        with patched(normal=normal, choice=choice, bernoulli=bernoulli):
            sim = pp(2)[1][-1]
            out = sim(jax.random.PRNGKey(1)) if steps is None else sim(jax.random.PRNGKey(1), steps) if k else sim(jax.random.PRNGKey(1), integration_steps=steps)
        x0, xs, ys = map(np.asarray, out)
        n = steps or 100
        case = dict(steps=steps, tape=k)
        ctx.ok(x0.shape == (2,) and xs.shape == (2000, 2) and ys.shape == (2000,), 'shapes', case, (x0.shape, xs.shape, ys.shape))
        if sorted(int(np.prod(s)) for s in seen) == [2, 2000 * n * 2]:
            ctx.close('initial sample', x0, 1. + np.sqrt(0.002) * 0.7 * np.ones(2), 1e-12, case=case)
            z = wave((2000, n, 2), k) * math.sqrt(1e-3 / n)
            x, ref, ddt = x0, [], 1e-3 / n
            for row in z:
                for w in row:
                    f = x * np.array([4 - 4 * x[1], 4 * x[0] - 4])
                    x = x + f * ddt + 0.1 * x * w + 0.005 * x * (w ** 2 - ddt)
                ref.append(x)
            ref = np.array(ref)
            ctx.close('simulated trajectory', xs, ref, 1e-8, case=case)
            e = 1 / (1 + np.exp(1 - ref[:, 0] ** 3))
            ctx.ok(np.all((ys == (e > 0.5)) | (np.abs(e - 0.5) < 1e-7)), 'measurements are not Bernoulli variables of the emission', case)
        ctx.state((steps, k))
        ctx.trans(2000 * n)
        ctx.trace()
    sim = pp(2)[1][-1]
    outs = [np.asarray(sim(jax.random.PRNGKey(s), 2)[1]) for s in range(3)]
    ctx.ok(len({o.tobytes() for o in outs}) == 3 and np.all(np.isfinite(outs)), 'trajectories of different keys', '')
    ctx.sample(case)


def endpp(ctx, tier, _, N):
    """Prey-predator: all binary histories; all filter modes, transitions and quadrature indexings against a Gauss-Hermite grid recursion."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims import filtering, moments
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    T = cfg(tier)['pp']
    mis, (dt, _, _, gs, drift, disp, em, pmf, _) = pp(N)
    inds = gram_and_hankel_indices_graded_lexico(N, 2)
    order = (jnp.asarray(mis), inds)
    hist = words((0, 1), T)
    ys = jnp.asarray(np.array(hist))
    ref = pp_reference(T)
    fine = np.array([[ref[h[:t]][0] for t in range(1, T + 1)] for h in hist])
    fnll = np.array([ref[h][1] for h in hist])
    e1 = moments.sde_cond_moments_euler_maruyama(drift, disp, dt, mis)
    e2 = moments.sde_cond_moments_tme_normal(drift, disp, dt, 2, mis)
    forms = [('euler', e1, 'index'), ('tme_normal', e2, 'index')]
    if N == 2:
        forms.append(('tme', moments.sde_cond_moments_tme(drift, disp, dt, 2), 'multi-index'))
    for name, (r, c, s, cm, cmv), ix in forms:
        tree = pp_projection(ctx, N, name, T)
        unit = ((1, 0), (0, 1))
        want = np.array([[[float(tree[h[:t]][0][u]) for u in unit] for t in range(1, T + 1)] for h in hist])
        wvar = np.array([[[float(tree[h[:t]][0][tuple(2 * v for v in u)] - tree[h[:t]][0][u] ** 2) for u in unit] for t in range(1, T + 1)] for h in hist])
        wnll = np.array([float(tree[h][1]) for h in hist])
        pos = {tuple(int(v) for v in row): i for i, row in enumerate(np.asarray(mis))}
        at = lambda ms, k: np.stack([ms[..., pos[(k, 0)]], ms[..., pos[(0, k)]]], axis=-1)
        scale0 = jnp.sqrt(jnp.diag(gs.cov))
        scms0 = gs.cms / jnp.prod(scale0 ** jnp.asarray(mis), axis=-1)
        for mode, stable in itertools.product(('raw', 'central', 'scaled'), (False, True)):
            if mode == 'raw':
                fn = lambda y: filtering.moment_filter_nd_rms((r, ix), pmf, y, order, gs.rms, stable=stable)
            elif mode == 'central':
                fn = lambda y: filtering.moment_filter_nd_cms((c, ix), cm, pmf, y, order, gs.cms, gs.mean, stable=stable)
            else:
                fn = lambda y: filtering.moment_filter_nd_scms((s, ix), cmv, pmf, y, order, scms0, gs.mean, scale0, stable=stable)
            out = list(map(np.asarray, jax.jit(jax.vmap(fn))(ys)))
            if mode == 'raw':
                mean = at(out[0], 1)
                var = at(out[0], 2) - mean ** 2
            elif mode == 'central':
                mean, var = out[1], at(out[0], 2)
            else:
                mean, var = out[1], at(out[0], 2) * out[2] ** 2
            nll = out[-1]
            case = dict(N=N, transition=name, mode=mode, stable=stable)
            desc = lambda i: dict(case, measurements=hist[i[0]])
            tol = 1e-9
            ctx.close(f'{mode}: means of the projection recursion', mean, want, tol, describe=desc)
            ctx.close(f'{mode}: variances of the projection recursion', var, wvar, tol, describe=desc)
            ctx.close(f'{mode}: negative log-likelihood of the projection recursion', nll, wnll, tol, describe=desc)
            ctx.close(f'{mode}: filtering means', mean, fine, 5e-4, describe=desc)
            ctx.close(f'{mode}: negative log-likelihood', nll, fnll, 7e-4, describe=desc)
            ctx.trace(len(hist))
    ctx.sample(case)


def pp_projection(ctx, N, name, T):
    mis = graded_lexico(2, max(2 * N - 1, 2))
    z = Fr(0)
    sde = Sde('pp', 2, 0, lambda s, one: ([s[0] * 4 + s[0] * s[1] * -4, s[0] * s[1] * 4 + s[1] * -4], [[s[0] * Fr(1, 10), Poly()], [Poly(), s[1] * Fr(1, 10)]], []), lambda v: v)
    dt = mp.mpf(1) / 1000
    fact = math.factorial

    def cond(x):
        x = list(x)
        if name == 'euler':
            return mvn_mp([x[0] + dt * x[0] * (4 - 4 * x[1]), x[1] + dt * x[1] * (4 * x[0] - 4)], [[dt * (x[0] / 10) ** 2, mp.mpf(0)], [mp.mpf(0), dt * (x[1] / 10) ** 2]], mis)
        if name == 'tme':
            return {n: sum(dt ** r / fact(r) * sde.evaluate(sde.power(n, r), x) for r in range(3)) for n in mis}
        u = lambda *ii: tuple(sum(a == i for i in ii) for a in range(2))
        A1 = [[sde.evaluate(sde.power(u(i), r), x) for r in range(3)] for i in range(2)]
        m = [sum(dt ** r / fact(r) * A1[i][r] for r in range(3)) for i in range(2)]
        C = [[sum(dt ** r / fact(r) * (sde.evaluate(sde.power(u(i, j), r), x) - sum(math.comb(r, k) * A1[i][k] * A1[j][r - k] for k in range(r + 1)))
                  for r in (1, 2)) for j in range(2)] for i in range(2)]
        return mvn_mp(m, C, mis)

    tabs = [mvn_moments([Fr(1), Fr(1)], [[Fr(k, 1000), z], [z, Fr(k, 1000)]], mis) for k in (1, 2)]
    r0 = {n: mp.mpf((tabs[0][n] + tabs[1][n]).numerator) / (tabs[0][n] + tabs[1][n]).denominator / 2 for n in mis}
    tree = {(): (r0, mp.mpf(0))}
    for t in range(1, T + 1):
        for h0 in words((0, 1), t - 1):
            r, nll = tree[h0]
            pred = {n: mp.mpf(0) for n in mis}
            for x, w in gauss.gauss_nd(r, 2, N):
                for n, v in cond(x).items():
                    pred[n] += w * v
            nodes = gauss.gauss_nd(pred, 2, N)
            for y in (0, 1):
                e = [1 / (1 + mp.exp(1 - x[0] ** 3)) for x, _ in nodes]
                g = [w * (p if y else 1 - p) for (_, w), p in zip(nodes, e)]
                c = mp.fsum(g)
                tree[h0 + (y,)] = ({n: mp.fsum(gw * x[0] ** n[0] * x[1] ** n[1] for gw, (x, _) in zip(g, nodes)) / c for n in mis}, nll - mp.log(c))
                ctx.state((N, name, h0 + (y,)))
                ctx.trans()
    return tree


def pp_reference(T, n=81):
    """Grid recursion in two dimensions (Euler-Maruyama transition, which is Normal with independent components)."""
    lo, hi = 0.75, 1.25
    g = np.linspace(lo, hi, n)
    h = g[1] - g[0]
    # work with mixture of the initial law propagated as weighted particles on the grid nodes; the transition width 0.1 sqrt(1e-3) = 0.003
    X, Y = np.meshgrid(g, g, indexing='ij')
    p0 = sum(0.5 * np.exp(-0.5 * ((X - 1) ** 2 + (Y - 1) ** 2) / v) / (2 * np.pi * v) for v in (0.001, 0.002))
    w = p0 / p0.sum()
    # moments to second order of one step are exact on the particles: particle positions move by the drift; the noise adds a small variance, which
    # enters the likelihood through its second derivative
    pts = np.stack([X.ravel(), Y.ravel()], axis=1)
    em = lambda x: 1 / (1 + np.exp(1 - x ** 3))
    z, zw = np.polynomial.hermite_e.hermegauss(3)
    zw = zw / zw.sum()
    out = {}

    def go(hst, pts, w, nll):
        if len(hst) == T:
            return
        drift = pts * np.stack([4 - 4 * pts[:, 1], 4 * pts[:, 0] - 4], axis=1)
        m = pts + drift * 1e-3
        sd = 0.1 * pts * math.sqrt(1e-3)
        # three-point rule for the noise of the first coordinate in the likelihood; collapsed back to one particle per node (weak order two)
        for y in (0, 1):
            like = np.zeros(len(m))
            shift = np.zeros(len(m))
            for a, b in zip(z, zw):
                e = em(m[:, 0] + sd[:, 0] * a)
                l = e if y else 1 - e
                like += b * l
                shift += b * l * sd[:, 0] * a
            ww = w * like
            tot = ww.sum()
            mm = m.copy()
            mm[:, 0] += shift / like
            hh = hst + (y,)
            nn = nll - math.log(tot)
            ww = ww / tot
            out[hh] = (ww @ mm, nn)
            go(hh, mm, ww, nn)

    go((), pts, w.ravel(), 0.)
    return out
