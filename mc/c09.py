"""C09: moments of Normal, Gaussian-mixture and uniform laws, and the Gaussian-sum objects, against exact rational recursions."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST, fl

RULE = ('A state is one (law, multi-index) pair; transitions are the steps of the moment recursion '
        'E[X^n] = m_i E[X^(n-e_i)] + sum_j C_ij (n-e_i)_j E[X^(n-e_i-e_j)], evaluated in rational arithmetic. All '
        'multi-indices up to the degree are enumerated for all laws (zero, negative and large means, diagonal, correlated and singular '
        'covariances), for NumPy and JAX inputs, and the Gaussian-sum objects are compared field by field.')
ASSUMPTIONS = [FLOAT_TRUST]


def cfg(tier):
    if tier == 'quick':
        return dict(one=24, nd={1: 12, 2: 9, 3: 7, 4: 5, 5: 3}, high={1: [24, 30, 34], 2: [22, 32], 3: [14]}, mgf=4, sums=7)
    return dict(one=40, nd={1: 20, 2: 14, 3: 9, 4: 7, 5: 5}, high={1: [24, 30, 34, 40], 2: [22, 26, 32, 36], 3: [14, 16, 20]}, mgf=5, sums=9)


def bounds(tier):
    c = cfg(tier)
    return dict(order_1d=c['one'], degree_by_dimension=c['nd'], additional_high_degrees=c['high'], mgf_degree=c['mgf'], gaussian_sum_N=c['sums'])


MEANS = (Fr(0), Fr(1, 2), Fr(-3, 2), Fr(7), Fr(-1, 100))


def units(tier):
    c = cfg(tier)
    us = [(f'normal 1D mean {m}', ['one', 0, i], 10) for i, m in enumerate(MEANS)] + [('mgf', ['mgf', 0, 0], 25), ('uniform', ['uniform', 0, 0], 4)]
    for N in range(1, c['sums'] + 1):
        us.append((f'Gaussian sum 1D N={N}', ['sum1', 1, N], 6))
    for d in c['nd']:
        for l in range(len(laws(d))):
            us.append((f'normal d={d} law {l}', ['nd', d, l], 3 + d))
    for d, N in ((1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)):
        us.append((f'Gaussian sum d={d} N={N}', ['sumn', d, N], 10))
    return us


def run_unit(ctx, tier, kind, d, k):
    {'one': one_dim, 'nd': multi_dim, 'mgf': mgf, 'uniform': uniform, 'sum1': sum_1d, 'sumn': sum_nd}[kind](ctx, tier, d, k)


def normal_raw(mean, var, K):
    ms = [Fr(1), Fr(mean)]
    for n in range(2, K):
        ms.append(mean * ms[-1] + (n - 1) * var * ms[-2])
    return ms[:K]


def one_dim(ctx, tier, d, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import central_moment_of_normal, raw_moment_of_normal, raw_moment_of_standard_normal
    K = cfg(tier)['one']
    compiled = jax.jit(lambda a, b: jnp.array([raw_moment_of_normal(a, b, p) for p in range(K)]))
    for p in range(K):
        want = 0 if p % 2 else math.prod(range(1, p, 2))
        ctx.close('moment of N(0, 1)', raw_moment_of_standard_normal(p), float(want), 0., rtol=1e-12, case=p)
    for p in range(K, 120):
        want = 0 if p % 2 else math.prod(range(1, p, 2))
        ctx.close('moment of N(0, 1)', raw_moment_of_standard_normal(p), float(want), 0., rtol=1e-12, case=p)
        ctx.state(('standard', p))
        ctx.trans()
        ctx.trace()
    for var in (Fr(1, 4), Fr(3)):
        K2 = 62
        want, cen = normal_raw(MEANS[k], var, K2), normal_raw(Fr(0), var, K2)
        for p in range(K, K2):
            mass = float(sum(math.comb(p, j) * abs(MEANS[k]) ** j * cen[p - j] for j in range(p + 1)))
            case = dict(mean=MEANS[k], variance=var, order=p)
            ctx.close('raw moment of Normal (high order)', raw_moment_of_normal(float(MEANS[k]), float(var), p), float(want[p]), 1e-11 * mass + 1e-300, case=case)
            ctx.close('central moment of Normal (high order)', central_moment_of_normal(float(var), p), float(cen[p]), 0., rtol=1e-11, case=case)
            ctx.state((MEANS[k], var, p))
            ctx.trans()
            ctx.trace()
    for mean, var in itertools.product((MEANS[k],), (Fr(0), Fr(1, 100), Fr(1, 4), Fr(1), Fr(5, 2), Fr(16))):
        want = normal_raw(mean, var, K)
        cen = normal_raw(Fr(0), var, K)
        m, v = float(mean), float(var)
        for p in range(K):
            mass = float(sum(math.comb(p, j) * abs(mean) ** j * cen[p - j] for j in range(p + 1)))
            case = dict(mean=mean, variance=var, order=p)
            ctx.close('raw moment of Normal', raw_moment_of_normal(m, v, p), float(want[p]), 1e-12 * mass + 1e-300, case=case)
            ctx.close('raw moment of Normal (jax)', raw_moment_of_normal(jnp.asarray(m), jnp.asarray(v), p), float(want[p]), 1e-12 * mass + 1e-300, case=case)
            if m == 0.:
                for arg in (v, jnp.asarray(v)):
                    ctx.close('central moment of Normal', central_moment_of_normal(arg, p), float(cen[p]), 0., rtol=1e-11, case=case)
            ctx.state((mean, var, p))
            ctx.trans()
            ctx.trace(2)
        mass = np.array([float(sum(math.comb(p, j) * abs(mean) ** j * cen[p - j] for j in range(p + 1))) for p in range(K)])
        ctx.close('raw moments of Normal (traced)', compiled(m, v), fl(want), 1e-12 * mass + 1e-300, case=dict(mean=mean, variance=var))
    ctx.sample(dict(mean='1/2', variance='1/4', order=3))


def laws(d):
    """(mean, cov) with rational entries."""
    base = [[Fr(2 + (i == j) * (3 + i)) / 4 * (1 if (i + j) % 2 == 0 or i == j else -1) for j in range(d)] for i in range(d)]
    cor = [[base[i][j] if i == j else base[i][j] / 2 for j in range(d)] for i in range(d)]
    diag = [[Fr(1 + i, 2) if i == j else Fr(0) for j in range(d)] for i in range(d)]
    v = [Fr(1 + i, 2) * (-1) ** i for i in range(d)]
    rank1 = [[v[i] * v[j] for j in range(d)] for i in range(d)]
    zero = [[Fr(0)] * d for _ in range(d)]
    tiny = [[c / 10000 for c in row] for row in cor]
    m0, m1, m2 = [Fr(0)] * d, [Fr(1, 2) - Fr(3 * i, 4) for i in range(d)], [Fr(3), Fr(0), Fr(-2), Fr(1, 2), Fr(1)][:d]
    return [(m0, cor), (m1, cor), (m2, diag), (m1, rank1), (m2, zero), (m1, tiny), (m0, rank1)]


def mvn_moments(mean, cov, mis):
    d = len(mean)
    out = {}
    for n in sorted(mis, key=sum):
        if sum(n) == 0:
            out[n] = Fr(1)
            continue
        i = next(a for a in range(d) if n[a])
        n1 = tuple(v - (a == i) for a, v in enumerate(n))
        t = mean[i] * out[n1]
        for j in range(d):
            if n1[j]:
                t += cov[i][j] * n1[j] * out[tuple(v - (a == j) for a, v in enumerate(n1))]
        out[n] = t
    return out


def size_of(mean, cov, n):
    """A bound of the terms that Kan's alternating sum adds up: prod_i (n_i^(1/2) sigma_i n + |m_i| n)^n_i is far too large; the sum of
    absolute terms is evaluated directly."""
    s = sum(n)
    tot = 0.
    m = np.array([float(v) for v in mean])
    C = np.array([[float(v) for v in r] for r in cov])
    ranges = [range(k + 1) for k in n]
    for v in itertools.product(*ranges):
        h = np.array(n) / 2 - np.array(v)
        b = math.prod(math.comb(k, j) for k, j in zip(n, v))
        q, l = np.abs(h) @ np.abs(C) @ np.abs(h) / 2, np.abs(h) @ np.abs(m)
        tot += b * sum(q ** r * l ** (s - 2 * r) / (math.factorial(r) * math.factorial(s - 2 * r)) for r in range(s // 2 + 1))
    return tot


def multi_dim(ctx, tier, d, l):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.moments import central_moments_mvn_kan, raw_moments_mvn_kan
    c = cfg(tier)
    mean, cov = laws(d)[l]
    m, C = fl(mean), fl(cov)
    mis = graded_lexico(d, c['nd'][d])
    want = mvn_moments(mean, cov, mis)
    zero = mvn_moments([Fr(0)] * d, cov, mis)
    for i, n in enumerate(mis):
        mass = size_of(mean, cov, n)
        tol = 1e-11 * mass + 1e-14 * abs(float(want[n])) + 1e-300
        tolz = 1e-11 * size_of([Fr(0)] * d, cov, n) + 1e-300
        case = dict(d=d, law=l, multi_index=n)
        ctx.close('raw moment (NumPy)', raw_moments_mvn_kan(m, C, n), float(want[n]), tol, case=case)
        ctx.close('central moment (NumPy)', central_moments_mvn_kan(C, n), float(zero[n]), tolz, case=case)
        if i % 4 == 0 or sum(n) in (0, 1, 2):
            ctx.close('raw moment (JAX)', raw_moments_mvn_kan(jnp.asarray(m), jnp.asarray(C), np.array(n)), float(want[n]), tol, case=case)
            ctx.close('central moment (JAX)', central_moments_mvn_kan(jnp.asarray(C), np.array(n)), float(zero[n]), tolz, case=case)
            ctx.trace(2)
        ctx.state((d, l, n))
        ctx.trans()
        ctx.trace(2)
        ctx.outcomes.add(want[n])
    # high degrees along and across the axes
    for D in c['high'].get(d, []):
        for n in ([(D,)] if d == 1 else [(D, 0) + (0,) * (d - 2), (D // 2, D - D // 2) + (0,) * (d - 2), (1,) * (d - 1) + (D - d + 1,)]):
            sub = list(itertools.product(*[range(v + 1) for v in n]))
            w = mvn_moments(mean, cov, sub)[n]
            wz = mvn_moments([Fr(0)] * d, cov, sub)[n]
            tol = 1e-11 * size_of(mean, cov, n) + 1e-300
            tolz = 1e-11 * size_of([Fr(0)] * d, cov, n) + 1e-300
            case = dict(d=d, law=l, multi_index=n)
            for lab, conv in (('NumPy', np.asarray), ('JAX', jnp.asarray)):
                ctx.close(f'raw moment of high degree ({lab})', raw_moments_mvn_kan(conv(m), conv(C), n), float(w), tol, case=case)
                ctx.close(f'central moment of high degree ({lab})', central_moments_mvn_kan(conv(C), n), float(wz), tolz, case=case)
                ctx.trace(2)
            ctx.state((d, l, n))
    # traced
    sel = mis[:: max(1, len(mis) // 12)]
    f = jax.jit(lambda a, b: jnp.stack([raw_moments_mvn_kan(a, b, n) * 1. for n in sel]))
    ctx.close('raw moments (traced)', f(jnp.asarray(m), jnp.asarray(C)), [float(want[n]) for n in sel],
              np.array([1e-11 * size_of(mean, cov, n) + 1e-300 for n in sel]), case=dict(d=d, law=l))
    ctx.sample(dict(d=d, mean=mean, cov=cov))


def mgf(ctx, tier, d, k):
    import jax.numpy as jnp
    from mfs.multi_dims.moments import raw_moments_mvn_mgf
    D = cfg(tier)['mgf']
    for d in (1, 2, 3):
        for l in (1, 2) if d < 3 else (1,):
            mean, cov = laws(d)[l]
            mis = graded_lexico(d, D if d < 3 else 3)
            want = mvn_moments(mean, cov, mis)
            for n in mis:
                got = raw_moments_mvn_mgf(jnp.asarray(fl(mean)), jnp.asarray(fl(cov)), n)
                ctx.close('moment by the generating function', got, float(want[n]), 1e-9 * (1 + size_of(mean, cov, n)), case=dict(d=d, law=l, multi_index=n))
                ctx.state((d, l, n))
                ctx.trans()
                ctx.trace()
    ctx.sample(dict(degree=D))


def uniform(ctx, tier, d, k):
    from mfs.multi_dims.moments import moments_nd_uniform
    bnds = [(Fr(-1), Fr(1)), (Fr(0), Fr(2)), (Fr(-3, 2), Fr(1, 4)), (Fr(2), Fr(5, 2)), (Fr(-4), Fr(-1))]
    for d in (1, 2, 3):
        for combo in itertools.product(range(len(bnds)), repeat=d):
            if d == 3 and sum(combo) % 3:
                continue
            b = [bnds[i] for i in combo]
            for n in graded_lexico(d, 7 if d < 3 else 4):
                for means in (None, [(x + y) / 2 for x, y in b], [Fr(1, 3)] * d):
                    mm = means or [Fr(0)] * d
                    want = math.prod(((hi - c) ** (p + 1) - (lo - c) ** (p + 1)) / ((p + 1) * (hi - lo)) for p, (lo, hi), c in zip(n, b, mm))
                    mass = math.prod(float((abs(hi) + abs(lo) + abs(c)) ** (p + 1) / ((p + 1) * (hi - lo))) for p, (lo, hi), c in zip(n, b, mm))
                    args = ([(float(x), float(y)) for x, y in b], n) + (() if means is None else ([float(v) for v in means],))
                    ctx.close('moment of a uniform law', moments_nd_uniform(*args), float(want), 1e-13 * mass * 100, case=dict(bounds=b, multi_index=n, means=means))
                    ctx.trans()
                    ctx.trace()
                ctx.state((combo, n))
    ctx.sample(dict(bounds=bnds[:2]))


MIX1 = [([Fr(-1, 2), Fr(1, 2)], [Fr(1, 20), Fr(1, 20)], [Fr(1, 2), Fr(1, 2)]),
        ([Fr(0)], [Fr(2)], [Fr(1)]),
        ([Fr(1), Fr(-2), Fr(3, 4)], [Fr(1, 2), Fr(1, 9), Fr(4)], [Fr(1, 5), Fr(1, 2), Fr(3, 10)]),
        ([Fr(100), Fr(101)], [Fr(1), Fr(1, 4)], [Fr(1, 10), Fr(9, 10)]),
        ([Fr(2), Fr(3)], [Fr(1), Fr(9)], [Fr(1), Fr(0)]),
        ([Fr(-3), Fr(-1, 2), Fr(1, 4), Fr(2), Fr(7, 2)], [Fr(1, 8), Fr(1, 2), Fr(1, 16), Fr(1), Fr(3, 2)], [Fr(1, 16), Fr(1, 2), Fr(1, 8), Fr(1, 4), Fr(1, 16)]),
        ([Fr(k % 7 - 3, 2) for k in range(12)], [Fr(1 + k % 5, 4) for k in range(12)], [Fr(k + 1, 78) for k in range(12)]),
        ([Fr(1, 2 ** 20), Fr(-3, 2 ** 20), Fr(1, 2 ** 21)], [Fr(1, 2 ** 40), Fr(5, 2 ** 42), Fr(3, 2 ** 40)], [Fr(1, 2), Fr(1, 8), Fr(3, 8)]),
        ([Fr(-2 ** 12), Fr(3 * 2 ** 10)], [Fr(2 ** 20), Fr(2 ** 24)], [Fr(3, 4), Fr(1, 4)])]


def sum_1d(ctx, tier, d, N):
    import jax.numpy as jnp
    from mfs.utils import GaussianSum1D
    for k, (ms, vs, ws) in enumerate(MIX1):
        gs = GaussianSum1D.new(jnp.asarray(fl(ms)), jnp.asarray(fl(vs)), jnp.asarray(fl(ws)), N=N)
        K = 2 * N
        K3 = max(K, 3)
        mean = sum(w * m for w, m in zip(ws, ms))
        raw = [sum(w * normal_raw(m, v, K3)[n] for m, v, w in zip(ms, vs, ws)) for n in range(K3)]
        cen = [sum(w * normal_raw(m - mean, v, K3)[n] for m, v, w in zip(ms, vs, ws)) for n in range(K3)]
        absr = [float(sum(w * normal_raw(abs(m), v, K3)[n] for m, v, w in zip(ms, vs, ws))) for n in range(K3)]
        absc = [float(sum(w * normal_raw(abs(m - mean) + abs(mean) / 10 ** 6, v, K3)[n] for m, v, w in zip(ms, vs, ws))) for n in range(K3)]
        case = dict(mixture=k, N=N)
        sd = math.sqrt(cen[2])
        ctx.close('mean of a Gaussian sum', gs.mean, float(mean), 1e-13 * max(abs(float(m)) for m in ms) + 1e-300, rtol=1e-13, case=case)
        ctx.close('variance of a Gaussian sum', gs.variance, float(cen[2]), 1e-13 * sd * max(abs(float(m)) for m in ms), rtol=1e-11, case=case)
        ctx.close('raw moments of a Gaussian sum', gs.rms, fl(raw[:K]), 1e-12 * np.array(absr[:K]), case=case)
        ctx.close('central moments of a Gaussian sum', gs.cms, fl(cen[:K]), 1e-10 * np.array(absc[:K]), case=case)
        ctx.close('scaled moments of a Gaussian sum', gs.scms, [float(cen[n]) / sd ** n for n in range(K)],
                  1e-10 * np.array([absc[n] / sd ** n for n in range(K)]), case=case)
        ctx.close('components', np.stack([gs.means, gs.variances, gs.weights]), np.stack([fl(ms), fl(vs), fl(ws)]), 0., case=case)
        xs = np.linspace(float(mean) - 6 * sd, float(mean) + 6 * sd, 41)
        want = [float(sum(mp.mpf(float(w)) * mp.npdf(x, float(m), mp.sqrt(mp.mpf(float(v)))) for m, v, w in zip(ms, vs, ws))) for x in xs]
        ctx.close('density of a Gaussian sum', gs.pdf(jnp.asarray(xs)), want, 1e-14 / sd, rtol=1e-10, case=case)
        ctx.close('density at a scalar', gs.pdf(float(xs[7])), [want[7]], 1e-14 / sd, rtol=1e-10, case=case)
        ctx.state((k, N))
        ctx.trans(K)
        ctx.trace()
        ctx.outcomes.add(cen[K - 1])
        if N == 2:
            g2 = GaussianSum1D.new(jnp.asarray(fl(ms)), jnp.asarray(fl(vs)), jnp.asarray(fl(ws)))
            ctx.ok(g2.rms.shape == (4,), 'default number of moments', case, g2.rms.shape)
            ctx.close('default number of moments', g2.scms, gs.scms, 1e-15, case=case)
        if k in (0, 1, 2, 5):
            far_origin(ctx, lambda a, b, c: GaussianSum1D.new(jnp.asarray(a), jnp.asarray(b), jnp.asarray(c), N=N), [np.array(fl(v)) for v in (ms, vs, ws)], case, N)
    ctx.sample(dict(mixture=MIX1[2], N=N))


def far_origin(ctx, make, parts, case, N):
    """Moving the origin changes the mean only; moving far away must not cost the central moments more than the spacing of the numbers there."""
    ms, vs, ws = parts
    near = make(*parts)
    for c in (2. ** 12, -2. ** 20, 2. ** 28):
        gs = make(ms + c, vs, ws)
        u = 5e-14 * abs(c)
        cs = dict(case, origin=c)
        spread = 1. + np.abs(np.asarray(near.cms))
        ctx.close('mean of a Gaussian sum (far from the origin)', gs.mean - c, near.mean, u, case=cs)
        var, want = (gs.cov, near.cov) if hasattr(gs, 'cov') else (gs.variance, near.variance)
        ctx.close('(co)variance of a Gaussian sum (far from the origin)', var, want, 20 * u + 1e-12, case=cs)
        ctx.close('central moments of a Gaussian sum (far from the origin)', gs.cms, near.cms, (20 * u + 1e-10) * 10. ** N * spread, case=cs)
        if hasattr(gs, 'scms'):
            ctx.close('scaled moments of a Gaussian sum (far from the origin)', gs.scms, near.scms, (20 * u + 1e-10) * 10. ** N * (1. + np.abs(np.asarray(near.scms))), case=cs)
        ctx.state((repr(case), c))
        ctx.trans()
        ctx.trace()


def sum_nd(ctx, tier, d, N):
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    from mfs.utils import GaussianSumND
    ls = laws(d)
    mixes = [([ls[1][0], ls[2][0]], [ls[1][1], ls[2][1]], [Fr(1, 3), Fr(2, 3)]),
             ([ls[0][0]], [ls[0][1]], [Fr(1)]),
             ([ls[2][0], ls[1][0], [-v for v in ls[2][0]]], [ls[2][1], ls[1][1], ls[0][1]], [Fr(1, 4), Fr(1, 4), Fr(1, 2)])]
    mis = graded_lexico(d, 2 * N - 1)
    big = graded_lexico(d, max(2 * N - 1, 2))
    for k, (ms, cs, ws) in enumerate(mixes):
        gs = GaussianSumND.new(jnp.asarray(fl(ms)), jnp.asarray(fl(cs)), jnp.asarray(fl(ws)), generate_graded_lexico_multi_indices(d, 2 * N - 1))
        mean = [sum(w * m[i] for w, m in zip(ws, ms)) for i in range(d)]
        comp = [mvn_moments(m, c, big) for m, c in zip(ms, cs)]
        compc = [mvn_moments([a - b for a, b in zip(m, mean)], c, big) for m, c in zip(ms, cs)]
        raw = [sum(w * v[n] for w, v in zip(ws, comp)) for n in mis]
        cen = [sum(w * v[n] for w, v in zip(ws, compc)) for n in mis]
        unit = lambda i: tuple(int(a == i) for a in range(d))
        cov = [[float(sum(w * v[tuple(x + y for x, y in zip(unit(i), unit(j)))] for w, v in zip(ws, compc))) for j in range(d)] for i in range(d)]
        tol = np.array([1e-11 * sum(float(w) * size_of(m, c, n) for m, c, w in zip(ms, cs, ws)) for n in mis]) + 1e-300
        tolc = np.array([1e-11 * sum(float(w) * size_of([a - b for a, b in zip(m, mean)], c, n) for m, c, w in zip(ms, cs, ws)) for n in mis]) + 1e-14
        case = dict(d=d, N=N, mixture=k)
        ctx.ok(gs.d == d, 'dimension of a Gaussian sum', case)
        ctx.close('mean of a Gaussian sum', gs.mean, fl(mean), 1e-12, case=case)
        ctx.close('covariance of a Gaussian sum', gs.cov, cov, 1e-11, case=case)
        ctx.close('raw moments of a Gaussian sum', gs.rms, fl(raw), tol, case=case, describe=lambda i: dict(case, multi_index=mis[i[0]]))
        ctx.close('central moments of a Gaussian sum', gs.cms, fl(cen), tolc, case=case, describe=lambda i: dict(case, multi_index=mis[i[0]]))
        if True:
            pts = [fl(mean) + 0.7 * np.array([(i * 3 + j * 2) % 5 - 2 for i in range(d)]) for j in range(6)]
            for x in pts + [fl(mean) + 45.]:
                want = 0
                for m, c, w in zip(ms, cs, ws):
                    Cm = mp.matrix([[float(v) for v in r] for r in c])
                    r = mp.matrix([float(a) - float(b) for a, b in zip(x, m)])
                    want += mp.mpf(float(w)) * mp.exp(-(r.T * mp.lu_solve(Cm, r))[0] / 2) / mp.sqrt((2 * mp.pi) ** d * mp.det(Cm))
                ctx.close('density of a Gaussian sum', gs.pdf(jnp.asarray(x)), float(want), 1e-300, rtol=1e-8, case=dict(case, x=x))
                ctx.close('log density of a Gaussian sum', gs.logpdf(jnp.asarray(x)), float(mp.log(want)), 1e-9, rtol=1e-10, case=dict(case, x=x))
        ctx.state((d, N, k))
        ctx.trans(len(mis))
        ctx.trace()
        ctx.outcomes.add(cen[-1])
        far_origin(ctx, lambda a, b, c: GaussianSumND.new(jnp.asarray(a), jnp.asarray(b), jnp.asarray(c), generate_graded_lexico_multi_indices(d, 2 * N - 1)),
                   [np.array(fl(v)) for v in (ms, cs, ws)], case, N)
    ctx.sample(dict(d=d, N=N, weights=mixes[2][2]))
