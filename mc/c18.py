"""C18: brute-force (grid) filter against a reference grid recursion, for every measurement history."""
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.c10 import sdes_1d
from mc.hmm import very_long_words
from mc.common import FLOAT_TRUST, words

RULE = ('A state is the filtering density on the grid after one measurement history; a transition is one prediction (Chapman-Kolmogorov with Euler or '
        'TME transition density, or finite differences of the forward equation, any number of sub-steps) followed by conditioning on one '
        'measurement. All histories over the alphabet up to the horizon are explored, and the densities at all grid points compared with a '
        'reference recursion, the transition means and variances of which come from exact generator algebra.')
ASSUMPTIONS = [FLOAT_TRUST, 'the tme package (executed, not modelled)', 'the expanded transition variances are positive on the grid']


def cfg(tier):
    if tier == 'quick':
        return dict(T=3, n=31, subs=[1, 2, 5], methods=['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3', 'kolmogorov'])
    return dict(T=5, n=61, subs=[1, 2, 3, 5, 8], methods=['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3', 'chapman-tme-4', 'kolmogorov'])


# grid (lo, hi) and dt per SDE, such that the expanded variances are positive
GRIDS = {'ou': (-4, 4, Fr(1, 5)), 'well': (-1, 1, Fr(1, 50)), 'benes': (-5, 5, Fr(1, 5)), 'gbm': (Fr(1, 2), 4, Fr(1, 10)),
         'affine noise': (-1, 3, Fr(1, 10)), 'sine': (-4, 4, Fr(1, 10))}
LIKES = ('gauss', 'bernoulli', 'vector')


def bounds(tier):
    c = cfg(tier)
    return dict(sdes=list(GRIDS), methods=c['methods'], sub_steps=c['subs'], horizon=c['T'], grid_points=c['n'], alphabet=3, measurement_models=LIKES)


def units(tier):
    c = cfg(tier)
    us = []
    for s in GRIDS:
        for m in c['methods']:
            us.append((f'{s} {m}', ['run', s, m], {'chapman-tme-3': 8, 'chapman-tme-4': 30}.get(m, 3)))
            if m in ('chapman-euler', 'chapman-tme-2', 'kolmogorov'):
                us.append((f'priors and outliers {s} {m}', ['odd', s, m], 4))
                us.append((f'units of measurement {s} {m}', ['units', s, m], 4))
    us.append(('interface', ['interface', 'benes', ''], 6))
    us.append(('accuracy', ['accuracy', 'ou', ''], 6))
    return us


def run_unit(ctx, tier, what, sde, method):
    {'run': run, 'odd': odd, 'units': in_units, 'interface': interface, 'accuracy': accuracy}[what](ctx, tier, sde, method)


def grid_of(sde, n, uniform=True):
    lo, hi, _ = GRIDS[sde]
    g = [Fr(k, n - 1) for k in range(n)]
    if not uniform:
        g = [(x + x * x) / 2 for x in g]
    return [lo + (hi - lo) * x for x in g]


def trap(xs):
    h = np.diff(xs)
    return np.concatenate([[0.], h]) / 2 + np.concatenate([h, [0.]]) / 2


def predictor(name, method, grid, ddt):
    """Matrix P with predicted density = P @ density (one sub-step)."""
    sde = sdes_1d()[name][0]
    xs = np.array([float(x) for x in grid])
    n = len(xs)
    if method == 'kolmogorov':
        D = np.gradient(np.eye(n), xs[1] - xs[0], axis=0)
        f = sde.drift[0]
        g = sde.gamma[0][0]
        vals = [sde.values([mp.mpf(x.numerator) / x.denominator]) for x in grid]
        ev = lambda p: np.array([float(sde.evaluate(p, v)) for v in vals])
        fx, dfx, gx, dgx, ddgx = ev(f), ev(sde.diff(f, 0)), ev(g), ev(sde.diff(g, 0)), ev(sde.diff(sde.diff(g, 0), 0))
        A = -(np.diag(dfx) + fx[:, None] * D) + 0.5 * (np.diag(ddgx) + 2 * dgx[:, None] * D + gx[:, None] * (D @ D))
        return np.eye(n) + float(ddt) * A
    m, v = [], []
    for x in grid:
        if method == 'chapman-euler':
            vals = sde.values([mp.mpf(x.numerator) / x.denominator])
            m.append(mp.mpf(x.numerator) / x.denominator + sde.evaluate(sde.drift[0], vals) * mp.mpf(ddt.numerator) / ddt.denominator)
            v.append(sde.evaluate(sde.gamma[0][0], vals) * mp.mpf(ddt.numerator) / ddt.denominator)
        else:
            a, b = sde.mean_cov([x], ddt, int(method.split('-')[-1]))
            m.append(a[0])
            v.append(b[0][0])
    assert min(v) > 0, ('machinery: choose another grid', name, method, min(v))
    m, s = np.array([float(a) for a in m]), np.array([float(mp.sqrt(b)) for b in v])
    K = np.exp(-0.5 * ((xs[:, None] - m[None]) / s[None]) ** 2) / (s[None] * np.sqrt(2 * np.pi))
    return K * trap(xs)[None]


def likes(kind):
    """(jax function, numpy function, alphabet)"""
    import jax.numpy as jnp
    if kind == 'gauss':
        mk = lambda xp: lambda y, x: xp.exp(-0.5 * (y - x) ** 2 / 0.49) / (0.7 * np.sqrt(2 * np.pi))
        al = [-1., 0.25, 2.]
    elif kind == 'bernoulli':
        mk = lambda xp: lambda y, x: y / (1 + xp.exp(-2 * x + 0.5)) + (1 - y) / (1 + xp.exp(2 * x - 0.5))
        al = [0., 1., 1.]
    else:
        mk = lambda xp: lambda y, x: xp.exp(-0.5 * (y[0] - xp.sin(x)) ** 2 - (y[1] - x ** 2 / 2) ** 2)
        al = [[0., 0.5], [1., -1.], [-0.5, 2.]]
    return mk(jnp), mk(np), np.array(al)


def explore(ctx, run_fn, np_like, al, P, sub, xs, p0, T, case, tol, positive, hist=None):
    w = trap(xs)
    Pk = np.linalg.matrix_power(P, sub)
    hist = words(range(len(al)), T) if hist is None else hist
    ys = al[np.array(hist)]
    got = np.asarray(run_fn(ys))
    ctx.ok(got.shape == (len(hist), T, len(xs)), 'shape of the densities', case, got.shape)
    cache, size = {(): p0}, {(): 1.}
    for i, h in enumerate(hist):
        for t in range(1, T + 1):
            if h[:t] not in cache:
                p = Pk @ cache[h[:t - 1]]
                p = np_like(al[h[t - 1]], xs) * p
                cache[h[:t]] = p / np.sum(w * p)
                size[h[:t]] = max(size[h[:t - 1]], np.sum(w * np.abs(p)) / abs(np.sum(w * p)))  # cancellation in the normalisation
                ctx.state((str(case), h[:t]))
                ctx.trans()
        want = np.stack([cache[h[:t]] for t in range(1, T + 1)])
        ctx.close('filtering density', got[i], want, tol * size[h] * np.abs(want).max(axis=1, keepdims=True), case=dict(case, measurements=ys[i].tolist()))
        ctx.close('the density does not integrate to one', got[i] @ w, np.ones(T), 1e-10 * size[h], case=dict(case, measurements=ys[i].tolist()))
        if positive:
            ctx.ok(np.all(got[i] >= 0), 'negative density', dict(case, measurements=ys[i].tolist()))
        ctx.trace()
    ctx.outcomes.add(float(np.round(got[-1, -1, 0], 9)))
    ctx.sample(dict(case, measurements=ys[-1].tolist()))


def run(ctx, tier, sde, method):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    c = cfg(tier)
    _, drift, dispersion = sdes_1d()[sde]
    lo, hi, dt = GRIDS[sde]
    full = lambda x: jnp.asarray(dispersion(x)) * jnp.ones_like(x)
    for uniform in (True, False) if method != 'kolmogorov' else (True,):
        grid = grid_of(sde, c['n'], uniform)
        xs = np.array([float(x) for x in grid])
        mid, wid = (xs[0] + xs[-1]) / 2, (xs[-1] - xs[0]) / 8
        p0 = np.exp(-0.5 * ((xs - mid) / wid) ** 2) + 0.4 * np.exp(-0.5 * ((xs - mid + wid) / wid * 2) ** 2)
        p0 /= np.sum(trap(xs) * p0)
        for sub in c['subs']:
            base = dt
            if method == 'kolmogorov':  # keep the explicit scheme in its stability region: not needed for the comparison, but for its size
                base = dt * Fr(1, 20)
            P = predictor(sde, method, grid, base / sub)
            for kind in LIKES if sub == c['subs'][1] else LIKES[:1]:
                jl, nl, al = likes(kind)
                al = al[:2] if kind == 'bernoulli' else al
                fn = jax.jit(jax.vmap(lambda ys: brute_force_filter(drift, full if sub == 2 else dispersion, jl, jnp.asarray(p0), jnp.asarray(xs), ys, float(base),
                                                                    integration_steps=sub, pred_method=method)))
                explore(ctx, fn, nl, al, P, sub, xs, p0, c['T'], dict(sde=sde, method=method, sub_steps=sub, uniform=uniform, likelihood=kind), 1e-10,
                        method != 'kolmogorov')


def odd(ctx, tier, sde, method):
    """Spiked, one-sided and two-peaked initial densities (finite differences make some of them negative), outlier measurements, and long histories."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    c = cfg(tier)
    _, drift, dispersion = sdes_1d()[sde]
    jl, nl, _ = likes('gauss')
    for n in (c['n'], 16):
        grid = grid_of(sde, n)
        xs = np.array([float(x) for x in grid])
        w = trap(xs)
        base = GRIDS[sde][2] * (Fr(1, 20) if method == 'kolmogorov' else 1)
        pri = dict(spike=np.eye(n)[n // 2], edge=np.eye(n)[0] + np.eye(n)[n - 1] * 0.5, block=(np.arange(n) % 8 < 3) * 1., ramp=(np.arange(n) / n) ** 4)
        for sub in (1, 3):
            P = predictor(sde, method, grid, base / sub)
            fn = jax.jit(jax.vmap(lambda p0, ys: brute_force_filter(drift, dispersion, jl, p0, jnp.asarray(xs), ys, float(base), integration_steps=sub,
                                                                    pred_method=method), in_axes=(None, 0)))
            for name, p0 in pri.items():
                p0 = p0 / np.sum(w * p0)
                case = dict(sde=sde, method=method, sub_steps=sub, prior=name, n=n)
                al = np.array([0.25, -1., 14., -9.])
                explore(ctx, lambda ys: fn(jnp.asarray(p0), ys), nl, al, P, sub, xs, p0, 2, case, 1e-9, method != 'kolmogorov')
                if sub == 3 and n == 16:
                    L = 40
                    per = [u for k in (1, 2, 3) for u in words(range(4), k)][::9]
                    explore(ctx, lambda ys: fn(jnp.asarray(p0), ys), nl, al, P, sub, xs, p0, L, dict(case, length=L), 1e-7, method != 'kolmogorov',
                            hist=[tuple(u[i % len(u)] for i in range(L)) for u in per])
                if sub == 3 and n == 16 and name == next(iter(pri)):
                    L = 600
                    explore(ctx, lambda ys: fn(jnp.asarray(p0), ys), nl, al[:2], P, sub, xs, p0, L, dict(case, length=L), 1e-7, method != 'kolmogorov',
                            hist=[tuple(v % 2 for v in very_long_words(L)[2])])


def in_units(ctx, tier, sde, method):
    """The state in other units (powers of two, exact in floats)."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    _, drift, dispersion = sdes_1d()[sde]
    jl, nl, al = likes('gauss')
    grid = grid_of(sde, 21)
    xs = np.array([float(x) for x in grid])
    p0 = np.exp(-0.5 * ((xs - xs.mean()) / np.ptp(xs) * 6) ** 2)
    p0 /= np.sum(trap(xs) * p0)
    base = GRIDS[sde][2] * (Fr(1, 20) if method == 'kolmogorov' else 1)
    for sub in (1, 2):
        P = predictor(sde, method, grid, base / sub)
        for k in (-30, -12, 12, 30):
            D = 2. ** k
            fn = jax.jit(jax.vmap(lambda ys: brute_force_filter(lambda x: drift(x / D) * D, lambda x: dispersion(x / D) * D, lambda y, x: jl(y, x / D), jnp.asarray(p0 / D), jnp.asarray(xs * D),
                                                                ys, float(base), integration_steps=sub, pred_method=method) * D))
            explore(ctx, fn, nl, al, P, sub, xs, p0, 2, dict(sde=sde, method=method, sub_steps=sub, power_of_two=k), 1e-9, method != 'kolmogorov')


def interface(ctx, tier, sde, _):
    """Defaults, unknown methods, unnormalised initial density and likelihood, lengths, eager execution."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    _, drift, dispersion = sdes_1d()[sde]
    dt = GRIDS[sde][2]
    grid = grid_of(sde, 25)
    xs = np.array([float(x) for x in grid])
    p0 = np.exp(-0.5 * xs ** 2) / np.sqrt(2 * np.pi)
    jl, nl, al = likes('gauss')
    a = (drift, dispersion, jl)
    b = (jnp.asarray(p0), jnp.asarray(xs))
    w = trap(xs)
    for T in (1, 2, 4):
        ys = jnp.asarray(np.resize(al, T))
        p = p0
        P = predictor(sde, 'chapman-tme-2', grid, dt)
        want = []
        for y in np.asarray(ys):
            p = nl(y, xs) * (P @ p)
            p = p / np.sum(w * p)
            want.append(p)
        forms = dict(default=lambda: brute_force_filter(*a, *b, ys, float(dt)),
                     steps=lambda: brute_force_filter(*a, *b, ys, float(dt), 1),
                     positional=lambda: brute_force_filter(*a, *b, ys, float(dt), 1, 'chapman-tme-2'),
                     scaled_prior=lambda: brute_force_filter(*a, b[0] * 7., b[1], ys, float(dt)),
                     tiny_prior=lambda: brute_force_filter(*a, b[0] * 1e-150, b[1], ys, float(dt)),
                     tiny_likelihood=lambda: brute_force_filter(drift, dispersion, lambda y, x: jl(y, x) * 1e-200, *b, ys, float(dt)),
                     huge_likelihood=lambda: brute_force_filter(drift, dispersion, lambda y, x: jl(y, x) * 1e200, *b, ys, float(dt)),
                     scaled_likelihood=lambda: brute_force_filter(drift, dispersion, lambda y, x: jl(y, x) * 13., *b, ys, float(dt)))
        for k, f in forms.items():
            got = f()
            ctx.ok(got.dtype == jnp.float64, 'type', k)
            ctx.close(f'{k} arguments', got, np.array(want), 1e-11, case=dict(T=T, form=k))
            ctx.state((T, k))
            ctx.trans(T)
            ctx.trace()
    for bad in ('euler', 'foo', 'Kolmogorov'):
        try:
            brute_force_filter(*a, *b, ys, float(dt), pred_method=bad)
            ctx.fail('an unknown prediction method is accepted', bad)
        except (NotImplementedError, ValueError):
            ctx.ok(True, '')
        ctx.trace()
    ctx.sample(dict(sde=sde))


def accuracy(ctx, tier, sde, _):
    """On a linear SDE the grid filter converges to the exact filter: all prediction methods, all histories, decreasing error in the order."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    al, T, dt = np.array([-1., 0.25, 2.]), 3, 0.2
    xs = np.linspace(-6, 6, 401)
    R = 0.49
    F, Q = np.exp(-1.1 * dt), 0.75 ** 2 / 2.2 * (1 - np.exp(-2.2 * dt))
    hist = words(range(3), T)
    ys = al[np.array(hist)]
    p0 = np.exp(-0.5 * xs ** 2 / 0.5) / np.sqrt(2 * np.pi * 0.5)
    jl, _, _ = likes('gauss')
    want = []
    for row in ys:
        m, v = 0., 0.5
        out = []
        for y in row:
            m, v = F * m, F * v * F + Q
            K = v / (v + R)
            m, v = m + K * (y - m), v - K * v
            out.append((m, v))
        want.append(out)
    want = np.array(want)
    errs = {}
    w = trap(xs)
    for method, sub, tol in (('chapman-euler', 20, 0.05), ('chapman-tme-1', 20, 0.05), ('chapman-tme-2', 4, 5e-3), ('chapman-tme-3', 4, 1e-4), ('kolmogorov', 400, 2e-2)):
        p = np.asarray(jax.jit(jax.vmap(lambda y: brute_force_filter(lambda x: -1.1 * x, lambda _: 0.75, jl, jnp.asarray(p0), jnp.asarray(xs), y, dt,
                                                                     integration_steps=sub, pred_method=method)))(jnp.asarray(ys)))
        m = p @ (w * xs)
        v = p @ (w * xs ** 2) - m ** 2
        ctx.close('mean of the exact filter', m, want[..., 0], tol, case=dict(method=method, sub_steps=sub))
        ctx.close('variance of the exact filter', v, want[..., 1], tol, case=dict(method=method, sub_steps=sub))
        errs[method] = np.abs(m - want[..., 0]).max()
        for h in hist:
            ctx.state((method, h))
        ctx.trans(T * len(hist))
        ctx.trace(len(hist))
    ctx.ok(errs['chapman-tme-3'] < errs['chapman-tme-2'] < errs['chapman-euler'], 'a higher expansion order is not more accurate', str(errs))
    ctx.sample(dict(method=method))
