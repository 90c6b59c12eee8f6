"""C10: conditional moments of SDEs (Euler-Maruyama, TME-Normal, TME), against exact generator algebra."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST
from mc.generator import Poly, Sde, shift

RULE = ('A state is one (SDE, scheme, expansion order, time step, conditioning point) and the transition is one step of the SDE; the '
        'observable is the complete table of conditional raw, central and scaled moments, mean and variance. Powers of the generator are '
        'computed in exact rational differential-polynomial algebra, and all five returned functions are compared at every point of a grid '
        'which contains the special points x = 0 and x = mean, for all moments up to the order.')
ASSUMPTIONS = [FLOAT_TRUST, 'the tme package (executed, not modelled)']


def cfg(tier):
    if tier == 'quick':
        return dict(orders=[1, 2], N=[1, 2, 7], ndeg={1: 5, 2: 5, 3: 3}, dts=[Fr(1, 100), Fr(1, 5), Fr(1)], extra=[('one', 'benes', 'tme', 3), ('one', 'well', 'normal', 3),
                    ('nd', 'lotka', 'normal', 3), ('nd', 'scalar', 'tme', 3)])
    return dict(orders=[1, 2, 3], N=[1, 2, 3, 4, 5, 6, 7, 8], ndeg={1: 7, 2: 7, 3: 5}, dts=[Fr(1, 1000), Fr(1, 100), Fr(1, 5), Fr(1)],
                extra=[('one', 'ou', 'tme', 4), ('one', 'gbm', 'tme', 4), ('one', 'benes', 'normal', 4)])


def bounds(tier):
    c = cfg(tier)
    return dict(sdes_1d=list(sdes_1d()), sdes_nd=list(sdes_nd()), expansion_orders=c['orders'], N=c['N'], degree_by_dimension=c['ndeg'], time_steps=c['dts'])


def sdes_1d():
    import jax.numpy as jnp
    x_only = lambda v: v
    h = Fr(1, 2)
    return {
        'ou': (Sde('ou', 1, 0, lambda s, one: ([s[0] * Fr(-11, 10)], [[one * Fr(3, 4)]], []), x_only), lambda x: -1.1 * x, lambda _: 0.75),
        'well': (Sde('well', 1, 0, lambda s, one: ([s[0] * 3 + s[0] * s[0] * s[0] * -1], [[one]], []), x_only), lambda x: x * (3. - x ** 2), lambda _: 1.),
        'benes': (Sde('benes', 1, 1, lambda s, one: ([s[1]], [[one]], [[one + s[1] * s[1] * -1]]), lambda v: [v[0], mp.tanh(v[0])]),
                  lambda x: jnp.tanh(x), lambda _: 1.),
        'gbm': (Sde('gbm', 1, 0, lambda s, one: ([s[0] * h], [[s[0] * Fr(2, 5)]], []), x_only), lambda x: 0.5 * x, lambda x: 0.4 * x),
        'affine noise': (Sde('aff', 1, 0, lambda s, one: ([one * Fr(7, 10) + s[0] * -1], [[one + s[0] * h]], []), x_only), lambda x: 0.7 - x, lambda x: 1. + 0.5 * x),
        'sine': (Sde('sine', 1, 2, lambda s, one: ([s[1]], [[one + s[2] * h]], [[s[2]], [s[1] * -1]]), lambda v: [v[0], mp.sin(v[0]), mp.cos(v[0])]),
                 lambda x: jnp.sin(x), lambda x: 1. + 0.5 * jnp.cos(x)),
    }


def sdes_nd():
    import jax.numpy as jnp
    x_only = lambda v: v
    h = Fr(1, 2)
    z = Poly()
    return {
        'scalar': (Sde('scalar', 1, 0, lambda s, one: ([s[0] + s[0] * s[0] * -1], [[one * h, s[0] * h]], []), x_only),
                   lambda x: x - x ** 2, lambda x: jnp.stack([jnp.full((1,), 0.5), 0.5 * x], axis=1)),
        'linear': (Sde('linear', 2, 0, lambda s, one: ([s[1], s[0] * -2 + s[1] * Fr(-3, 2)], [[one, z], [one * h, one * 2]], []), x_only),
                   lambda x: jnp.array([[0., 1.], [-2., -1.5]]) @ x, lambda _: jnp.array([[1., 0.], [0.5, 2.]])),
        'van der pol': (Sde('vdp', 2, 0, lambda s, one: ([s[1], s[1] + s[0] * s[0] * s[1] * -1 + s[0] * -1], [[z], [one]], []), x_only),
                        lambda x: jnp.array([x[1], x[1] * (1. - x[0] ** 2) - x[0]]), lambda _: jnp.array([[0.], [1.]])),
        'lotka': (Sde('lotka', 2, 0, lambda s, one: ([s[0] * 2 + s[0] * s[1] * -1, s[0] * s[1] * h + s[1] * -1], [[s[0] * h, z], [z, s[1] * Fr(1, 4)]], []), x_only),
                  lambda x: jnp.array([x[0] * (2. - x[1]), x[1] * (0.5 * x[0] - 1.)]), lambda x: jnp.diag(jnp.array([0.5, 0.25]) * x)),
        'three noises': (Sde('three', 2, 0, lambda s, one: ([s[1] * -1, s[0]], [[one, s[1] * h, z], [z, one, s[0] * h]], []), x_only),
                         lambda x: jnp.array([-x[1], x[0]]), lambda x: jnp.array([[1., 0.5 * x[1], 0.], [0., 1., 0.5 * x[0]]])),
        'pendulum': (Sde('pend', 2, 2, lambda s, one: ([s[1], s[2] * -1], [[z, z], [z, one * h + s[2] * Fr(1, 4)]], [[s[3], z], [s[2] * -1, z]]),
                         lambda v: [v[0], v[1], mp.sin(v[0]), mp.cos(v[0])]),
                     lambda x: jnp.array([x[1], -jnp.sin(x[0])]), lambda x: jnp.array([[0., 0.], [0., 0.5 + 0.25 * jnp.sin(x[0])]])),
        'lorenz': (Sde('lorenz', 3, 0, lambda s, one: ([s[1] * 2 + s[0] * -2, s[0] * 3 + s[1] * -1 + s[0] * s[2] * -1, s[0] * s[1] + s[2] * -1],
                                                       [[one, z, z], [one * h, one, z], [z, one * h, one]], []), x_only),
                   lambda x: jnp.array([2. * (x[1] - x[0]), x[0] * (3. - x[2]) - x[1], x[0] * x[1] - x[2]]),
                   lambda _: jnp.array([[1., 0., 0.], [0.5, 1., 0.], [0., 0.5, 1.]])),
    }


def units(tier):
    c = cfg(tier)
    us = []
    todo = []
    for kind, table in (('one', sdes_1d()), ('nd', sdes_nd())):
        for s in table:
            todo.append((kind, s, 'euler', 1))
            todo += [(kind, s, sch, o) for sch in ('normal', 'tme') for o in c['orders']]
    for kind, s, sch, o in todo + c['extra']:
        us.append((f'{kind} {s} {sch} {o}', [kind, s, sch, o], 10 ** o))
    return us


def run_unit(ctx, tier, kind, name, scheme, order):
    {'one': one_dim, 'nd': multi_dim}[kind](ctx, tier, name, scheme, order)


PAD = mp.mpf(1) / 1000  # share of the cancelled terms in the magnitudes: results may be off by PAD * RT of what cancels


def normal_table(m, C, mis, size=None):
    """Raw moments of N(m, C) for all mis, and with absolute values (size: magnitudes of mean and covariance)."""
    d = len(m)
    am, aC = size or ([abs(v) for v in m], [[abs(v) for v in r] for r in C])
    out = {}
    for n in sorted(mis, key=sum):
        if not any(n):
            out[n] = (mp.mpf(1), mp.mpf(1))
            continue
        i = next(a for a in range(d) if n[a])
        n1 = tuple(v - (a == i) for a, v in enumerate(n))
        t, s = m[i] * out[n1][0], am[i] * out[n1][1]
        for j in range(d):
            if n1[j]:
                n2 = tuple(v - (a == j) for a, v in enumerate(n1))
                t += C[i][j] * n1[j] * out[n2][0]
                s += aC[i][j] * n1[j] * out[n2][1]
        out[n] = (t, s)
    return out


def sizes(sde, x, dt, order, mean):
    """Magnitudes of the mean, relative to a given mean, and covariance, for rounding error bounds."""
    m, C = sde.mean_cov(x, dt, order)
    M, K = sde.mean_cov_mass(x, dt, order)
    return ([abs(a - b) + PAD * (c + abs(b)) for a, b, c in zip(m, mean, M)],
            [[abs(v) + PAD * w for v, w in zip(r, q)] for r, q in zip(C, K)])


def tables(sde, xs, dt, scheme, order, mis, means, scales):
    """Reference tables for all points: raw, central, scaled, mean, variance and the magnitudes."""
    raw, cen, sca, mean, var, mass = [], [], [], [], [], []
    d = sde.d
    for x in xs:
        m, C = sde.mean_cov(x, dt, order)
        M, K = sde.mean_cov_mass(x, dt, order)
        mean.append(m)
        var.append([C[i][i] for i in range(d)])
        mass.append([M, [K[i][i] for i in range(d)]])
        if scheme == 'tme':
            t = sde.raw(x, dt, order, mis)
            cs = [{n: (shift(t, n, mm, 0), shift(t, n, mm, 1)) for n in mis} for mm in means]
        else:
            t = normal_table(m, C, mis, sizes(sde, x, dt, order, [0] * d))
            cs = [normal_table([a - b for a, b in zip(m, mm)], C, mis, sizes(sde, x, dt, order, mm)) for mm in means]
        raw.append([t[n] for n in mis])
        cen.append([[c[n] for n in mis] for c in cs])
        sca.append([[[(c[n][0] / (q := mp.fprod(s ** e for s, e in zip(sc, n))), c[n][1] / q) for n in mis] for sc in scales] for c in cs])
    f = lambda a: np.array(a, dtype=object).astype('float64')
    return f(raw), f(cen), f(sca), f(mean), f(var), f(mass)


def positive(sde, x, dt, order):
    _, C = sde.mean_cov(x, dt, order)
    return all(C[i][i] >= 0 for i in range(sde.d))


def mpl(v):
    return [mp.mpf(e.numerator) / e.denominator for e in v]


def flo(v):
    return np.array([[float(e) for e in r] for r in v])


RT = 2e-11


def everything(make):
    """All five functions, for all means and scales, with a traced time step."""
    import jax

    def f(h, X, idx, MM, SS):
        fr, fc, fs, fm, fv = make(h)
        m2, v2 = fv(X)
        return (fr(X, idx), jax.vmap(lambda m: fc(X, idx, m))(MM), jax.vmap(lambda m: jax.vmap(lambda s: fs(X, idx, m, s))(SS))(MM), fm(X), m2, v2)

    return f


def compare(ctx, got, case, ref, xs, means, scales):
    raw, cen, sca, mean, var, mass = ref
    r, c, s, m1, m2, v2 = [np.asarray(v) for v in got]
    at = lambda i: dict(case, x=xs[i[0]])
    if np.ndim(m2) == 1:
        mean, var, mass = mean[:, 0], var[:, 0], mass[:, :, 0]
    ctx.close('conditional raw moments', r, raw[..., 0], RT * raw[..., 1] + 1e-15, case=case, describe=lambda i: dict(at(i), moment=i[1]))
    ctx.close('conditional mean', m1, mean, 1e-13 + 1e-11 * np.abs(mean) + 2e-14 * mass[:, 0], case=case, describe=at)
    ctx.close('conditional mean (with variance)', m2, mean, 1e-13 + 1e-11 * np.abs(mean) + 2e-14 * mass[:, 0], case=case, describe=at)
    ctx.close('conditional variance', v2, var, 1e-12 * (1 + mean ** 2 + np.abs(var)) + 2e-14 * mass[:, 1], case=case, describe=at)
    ctx.close('conditional central moments', np.moveaxis(c, 0, 1), cen[..., 0], RT * cen[..., 1] + 1e-15, case=case,
              describe=lambda i: dict(at(i), mean=means[i[1]], moment=i[2]))
    ctx.close('conditional scaled moments', np.moveaxis(s, 2, 0), sca[..., 0], RT * sca[..., 1] + 1e-15, case=case,
              describe=lambda i: dict(at(i), mean=means[i[1]], scale=scales[i[2]], moment=i[3]))


def explore(ctx, tier, sde, name, scheme, order, maker, pts, means, scales, mis, idx, N, squeeze):
    import jax
    import jax.numpy as jnp
    f = jax.jit(everything(maker))
    sq = (lambda v: v[:, 0]) if squeeze else (lambda v: v)
    MM, SS = jnp.asarray(sq(flo(means))), jnp.asarray(sq(flo(scales)))
    for dt in cfg(tier)['dts']:
        good = [i for i, x in enumerate(pts) if scheme == 'tme' or positive(sde, x, dt, order)]
        if not good:
            continue
        xs = [pts[i] for i in good]
        ref = tables(sde, xs, dt, scheme, order, mis, [mpl(m) for m in means], [mpl(s) for s in scales])
        if scheme != 'tme' and not squeeze:  # Kan's formula adds alternating terms
            kan(ref, xs, sde, dt, order, mis, means, scales)
        case = dict(sde=name, scheme=scheme, order=order, dt=dt, N=N)
        got = f(jnp.asarray(float(dt)), jnp.asarray(sq(flo(pts))), idx, MM, SS)
        g = jnp.array(good)
        got = (got[0][g], got[1][:, g], got[2][:, :, g], got[3][g], got[4][g], got[5][g])
        compare(ctx, got, case, ref, xs, means, scales)
        ctx.trans(len(xs))
        ctx.trace()
        for x in xs:
            ctx.state((name, scheme, order, dt, x, N))
        ctx.outcomes.update(np.asarray(got[3]).ravel().tolist())
        if dt == cfg(tier)['dts'][1] and (order == 1 or (name in ('ou', 'linear') and order == 2)):
            # called as a user does: no jit, Python time step, and a selection of the moments in another order
            fr, fc, fs, fm, fv = maker(float(dt))
            X, perm = jnp.asarray(sq(flo(xs))), np.arange(len(mis))[::-1][:max(1, len(mis) - 1)]
            a, b = len(means) - 1, len(scales) - 1
            ctx.close('raw moments (eager, permuted)', fr(X, idx[perm]), ref[0][:, perm, 0], RT * ref[0][:, perm, 1] + 1e-15, case=case)
            ctx.close('central moments (eager, permuted)', fc(X, idx[perm], MM[a]), ref[1][:, a, perm, 0], RT * ref[1][:, a, perm, 1] + 1e-15, case=case)
            ctx.close('scaled moments (eager, permuted)', fs(X, idx[perm], MM[a], SS[b]), ref[2][:, a, b, perm, 0], RT * ref[2][:, a, b, perm, 1] + 1e-15, case=case)
            ctx.close('mean (eager)', fm(X), sq(ref[3]), 1e-13 + 2e-14 * sq(ref[5][:, 0]), rtol=1e-11, case=case)
            m2, v2 = fv(X)
            ctx.close('mean (eager)', m2, sq(ref[3]), 1e-13 + 2e-14 * sq(ref[5][:, 0]), rtol=1e-11, case=case)
            ctx.close('variance (eager)', v2, sq(ref[4]), 1e-12 * (1 + sq(ref[3]) ** 2 + np.abs(sq(ref[4]))) + 2e-14 * sq(ref[5][:, 1]), case=case)
            ctx.trace()
    ctx.sample(dict(sde=name, scheme=scheme, order=order, x=pts[-1]))


def far_origin(ctx, case, make, drift, disp, pts, means, scales, mis, idx):
    """The same SDE in coordinates with another origin: central moments do not depend on it, up to the spacing of the numbers there."""
    import jax
    import jax.numpy as jnp
    X, MM, SS = jnp.asarray(pts), jnp.asarray(means[:2]), jnp.asarray(scales[:2])
    deg = np.array([sum(n) for n in mis], dtype='float64')
    c = 2. ** 16
    near = jax.jit(everything(lambda h: make(h, drift, disp)))(0.125, X, idx, MM, SS)
    far = jax.jit(everything(lambda h: make(h, lambda x: drift(x - c), lambda x: disp(x - c))))(0.125, X + c, idx, MM + c, SS)
    a, b = [np.asarray(v) for v in near], [np.asarray(v) for v in far]
    size = lambda v: (1. + np.max(np.abs(v) ** (1. / np.maximum(deg, 1.)), axis=-1, keepdims=True)) ** deg * (1. + deg)
    u = 4e-14 * c
    case = dict(case, origin=c)
    ctx.close('conditional central moments (far from the origin)', b[1], a[1], u * size(a[1]), case=case)
    ctx.close('conditional scaled moments (far from the origin)', b[2], a[2], 10. * u * size(a[2]) / np.min(np.asarray(scales)), case=case)
    ctx.close('conditional mean (far from the origin)', b[3] - c, a[3], u, case=case)
    ctx.close('conditional mean (far from the origin)', b[4] - c, a[4], u, case=case)
    ctx.close('conditional variance (far from the origin)', b[5], a[5], u * (1. + np.abs(a[5])), case=case)
    for x in np.asarray(pts).tolist():
        ctx.state((repr(case), repr(x)))
    ctx.trans(len(pts))
    ctx.trace()


def one_dim(ctx, tier, name, scheme, order):
    import jax.numpy as jnp
    from mfs.one_dim import moments as M
    sde, drift, disp = sdes_1d()[name]
    pts = [(x,) for x in (Fr(0), Fr(1, 2), Fr(-1, 2), Fr(3, 2), Fr(-2), Fr(1, 100), Fr(5))]
    means = [(x,) for x in (Fr(0), Fr(1, 2), Fr(-2), Fr(5), Fr(7, 10))]
    scales = [(x,) for x in (Fr(1), Fr(1, 2), Fr(3), Fr(1, 10))]
    for N in [7] if scheme == 'tme' else cfg(tier)['N'] if order < 3 or tier == 'thorough' else [2]:
        maker = {'euler': lambda h: M.sde_cond_moments_euler(drift, disp, h, N),
                 'normal': lambda h: M.sde_cond_moments_tme_normal(drift, disp, h, order, N),
                 'tme': lambda h: M.sde_cond_moments_tme(drift, disp, h, order)}[scheme]
        explore(ctx, tier, sde, name, scheme, order, maker, pts, means, scales, [(k,) for k in range(2 * N)], jnp.arange(2 * N), N, True)
    if order <= 2 or tier == 'thorough':
        make = {'euler': lambda h, a, b: M.sde_cond_moments_euler(a, b, h, 3),
                'normal': lambda h, a, b: M.sde_cond_moments_tme_normal(a, b, h, order, 3),
                'tme': lambda h, a, b: M.sde_cond_moments_tme(a, b, h, order)}[scheme]
        far_origin(ctx, dict(sde=name, scheme=scheme, order=order), make, drift, disp, flo([p for p in pts if scheme == 'tme' or positive(sde, p, Fr(1, 8), order)])[:, 0],
                   flo(means)[:, 0], flo(scales)[:, 0], [(k,) for k in range(6)], jnp.arange(6))


def multi_dim(ctx, tier, name, scheme, order):
    import jax.numpy as jnp
    from mfs.multi_dims import moments as M
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    sde, drift, disp = sdes_nd()[name]
    d = sde.d
    D = cfg(tier)['ndeg'][d]
    pts = {1: [(Fr(0),), (Fr(1, 2),), (Fr(-3, 2),)],
           2: [(Fr(0), Fr(0)), (Fr(1, 2), Fr(0)), (Fr(0), Fr(-1)), (Fr(1, 2), Fr(-2)), (Fr(3, 2), Fr(1, 3)), (Fr(-1), Fr(2))],
           3: [(Fr(0), Fr(0), Fr(0)), (Fr(1, 2), Fr(-1), Fr(0)), (Fr(1), Fr(1, 2), Fr(-3, 2)), (Fr(-1), Fr(0), Fr(2))]}[d]
    means = [tuple([Fr(0)] * d), pts[1], tuple(Fr(3, 2) - Fr(5 * i, 4) for i in range(d))]
    scales = [tuple([Fr(1)] * d), tuple(Fr(1, 2) + 2 * i for i in range(d))]
    impl = generate_graded_lexico_multi_indices(d, D)
    maker = {'euler': lambda h: M.sde_cond_moments_euler_maruyama(drift, disp, h, impl),
             'normal': lambda h: M.sde_cond_moments_tme_normal(drift, disp, h, order, impl),
             'tme': lambda h: M.sde_cond_moments_tme(drift, disp, h, order)}[scheme]
    idx = jnp.asarray(impl) if scheme == 'tme' else jnp.arange(len(impl))
    explore(ctx, tier, sde, name, scheme, order, maker, pts, means, scales, graded_lexico(d, D), idx, D, False)
    if order == 1 or tier == 'thorough':
        mi = generate_graded_lexico_multi_indices(d, 3)
        make = {'euler': lambda h, a, b: M.sde_cond_moments_euler_maruyama(a, b, h, mi),
                'normal': lambda h, a, b: M.sde_cond_moments_tme_normal(a, b, h, order, mi),
                'tme': lambda h, a, b: M.sde_cond_moments_tme(a, b, h, order)}[scheme]
        far_origin(ctx, dict(sde=name, scheme=scheme, order=order), make, drift, disp, flo([p for p in pts if scheme == 'tme' or positive(sde, p, Fr(1, 8), order)]),
                   flo(means), flo(scales), graded_lexico(d, 3), jnp.asarray(mi) if scheme == 'tme' else jnp.arange(len(mi)))


def kan(ref, xs, sde, dt, order, mis, means, scales):
    """Replace the magnitudes by those of the alternating sum in Kan's formula."""
    from mc.c09 import size_of
    raw, cen, sca = ref[:3]
    for i, x in enumerate(xs):
        raw[i, :, 1] = [size_of(*sizes(sde, x, dt, order, [0] * sde.d), n) for n in mis]
        for a, mm in enumerate(means):
            s = np.array([size_of(*sizes(sde, x, dt, order, mpl(mm)), n) for n in mis])
            cen[i, a, :, 1] = s
            for b, sc in enumerate(scales):
                sca[i, a, b, :, 1] = s / np.array([math.prod(float(v) ** e for v, e in zip(sc, n)) for n in mis])
