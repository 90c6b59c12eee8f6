"""C15: Gaussian sigma-point integration, against exact moments of the Gaussian law."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc.c07 import reference as graded_lexico
from mc.c09 import mvn_moments
from mc.common import FLOAT_TRUST, fl

RULE = ('A state is one (rule, dimension, order, monomial, Gaussian law); the transition is one application of the rule. All monomials that the '
        'rule must integrate exactly (total degree 3 for cubature, degree 2p-1 for Gauss-Hermite of order p, in every coordinate for the standard law) are '
        'enumerated for all laws, and compared with rational moments; structural facts (weights, number and shape of points) are '
        'checked for every rule, and the other integration entry points are checked to be the same functional.')
ASSUMPTIONS = [FLOAT_TRUST]


def cfg(tier):
    if tier == 'quick':
        return dict(gh={1: list(range(1, 41)), 2: list(range(1, 9)), 3: [1, 2, 3, 4], 4: [2, 3]}, cub=range(1, 9))
    return dict(gh={1: list(range(1, 46)), 2: list(range(1, 13)), 3: [1, 2, 3, 4, 5, 6], 4: [1, 2, 3, 4], 5: [2, 3]}, cub=range(1, 17))


def bounds(tier):
    c = cfg(tier)
    return dict(gauss_hermite_orders={d: [min(o), max(o)] for d, o in c['gh'].items()}, cubature_dimensions=[min(c['cub']), max(c['cub'])])


def units(tier):
    c = cfg(tier)
    us = [(f'gauss_hermite d={d} order={p}', ['gh', d, p], 1 + p ** d / 40) for d, ps in c['gh'].items() for p in ps]
    us += [(f'cubature d={d}', ['cub', d, 0], 1 + d) for d in c['cub']]
    us += [('gaussian_expectation', ['ge', 1, 0], 10)]
    return us


def run_unit(ctx, tier, kind, d, p):
    {'gh': hermite, 'cub': cubature, 'ge': expectation}[kind](ctx, tier, d, p)


def laws(d):
    """(mean, lower Cholesky factor) with rational entries."""
    L1 = [[Fr(1 + (i + j) % 3, 2) if i == j else (Fr((-1) ** (i + j), 2 + i + j) if i > j else Fr(0)) for j in range(d)] for i in range(d)]
    I = [[Fr(int(i == j)) for j in range(d)] for i in range(d)]
    L2 = [[v / 100 for v in r] for r in L1]
    m1 = [Fr(1, 2) - Fr(3 * i, 4) for i in range(d)]
    return [([Fr(0)] * d, I), (m1, L1), ([Fr(3)] * d, L2)]


def cov_of(L):
    d = len(L)
    return [[sum(L[i][k] * L[j][k] for k in range(d)) for j in range(d)] for i in range(d)]


def common(ctx, rule, d, npoints, name):
    import jax.numpy as jnp
    case = dict(rule=name, d=d)
    w, xi = np.asarray(rule.w), np.asarray(rule.xi)
    ctx.ok(rule.d == d and int(rule.n_points) == npoints and w.shape == (npoints,) and xi.shape == (npoints, d), 'shape of the rule', case, (rule.n_points, w.shape, xi.shape))
    ctx.close('weights sum to one', w.sum(), 1., 1e-9 if npoints > 20 else 1e-12, case=case)
    ctx.ok(np.all(w > -1e-300), 'negative weight', case, w.min())
    key = lambda A: A[np.lexsort(np.round(A, 6).T)]
    ctx.close('symmetry of the points', key(xi), key(-xi), 1e-6, case=case)
    # propagated points and both expectation functions
    m, L = laws(d)[1]
    m, L = fl(m), fl(L)
    chi = np.asarray(rule.gen_sigma_points(jnp.asarray(m), jnp.asarray(L)))
    ctx.close('sigma points', chi, m + xi @ L.T, 1e-11, rtol=1e-12, case=case)
    f = lambda c: jnp.stack([jnp.sin(c[:, 0]), c.sum(1), c[:, -1] ** 2 * c[:, 0]], axis=1)
    g = np.stack([np.sin(chi[:, 0]), chi.sum(1), chi[:, -1] ** 2 * chi[:, 0]], 1)
    want = w @ g
    mag = 1e-11 * (np.abs(w) @ np.abs(g)) + 1e-13
    ctx.close('expectation from nodes', rule.expectation_from_nodes(f, jnp.asarray(chi)), want, mag, case=case)
    ctx.close('expectation of evaluations', rule.expectation(jnp.asarray(g)), want, mag, case=case)
    ctx.close('expectation of scalars', rule.expectation(jnp.asarray(g[:, 0])), want[0], mag[0], case=case)
    T = np.stack([g[:, :2], g[:, 1:]], 1)
    ctx.close('expectation of matrices', rule.expectation(jnp.asarray(T)), np.einsum('i,ijk->jk', w, T), 1e-10 * (1 + np.abs(T).max()), case=case)
    ctx.trace(5)


def monomials(ctx, rule, d, p, mis, name, tol):
    import jax.numpy as jnp
    case = dict(rule=name, d=d)
    every = mis
    for k, (m, L) in enumerate(laws(d)):
        if d > 4 and k:
            continue
        # a correlated law mixes the coordinates: only the total degree counts
        mis = [n for n in every if k == 0 or sum(n) <= 2 * p - 1 or name == 'cubature']
        M = np.array(mis)
        want = mvn_moments(m, cov_of(L), closure(mis))
        chi = np.asarray(rule.gen_sigma_points(jnp.asarray(fl(m)), jnp.asarray(fl(L))))
        ev = np.prod(chi[:, None, :] ** M[None], axis=-1)
        mag = np.abs(np.asarray(rule.w)) @ np.abs(ev)
        got = rule.expectation(jnp.asarray(ev))
        ctx.close('Gaussian moment', got, [float(want[n]) for n in mis], tol * mag + 1e-13, case=case,
                  describe=lambda i: dict(case, law=k, monomial=mis[i[0]]))
        for n in mis:
            ctx.state((name, d, k, n))
        ctx.trans(len(mis))
        ctx.trace(len(mis))
        ctx.outcomes.update(want[n] for n in mis)


def closure(mis):
    out = set()
    for n in mis:
        out.update(itertools.product(*[range(v + 1) for v in n]))
    return out


def hermite(ctx, tier, d, p):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    rule = SigmaPoints.gauss_hermite(d, p)
    name = f'gauss_hermite {p}'
    common(ctx, rule, d, p ** d, name)
    if d == 1:
        mis = [(k,) for k in range(2 * p)]
    elif (2 * p) ** d <= 2000:
        mis = list(itertools.product(range(2 * p), repeat=d))
    else:
        mis = [n for n in itertools.product(range(2 * p), repeat=d) if sum(v > 1 for v in n) <= 2 and (sum(n) <= 8 or max(n) == 2 * p - 1)][:3000]
    monomials(ctx, rule, d, p, mis, name, 1e-9 if p <= 15 else 1e-8 if p <= 20 else 1e-6 if p <= 30 else 1e-4)
    x, w = np.polynomial.hermite.hermgauss(p)
    if p <= 20:
        g = np.stack(np.meshgrid(*[x] * d, indexing='ij'), -1).reshape(-1, d) * math.sqrt(2)
        ww = np.stack(np.meshgrid(*[w] * d, indexing='ij'), -1).reshape(-1, d).prod(1) / math.pi ** (d / 2)
        key = lambda A, v: np.concatenate([A, v[:, None]], 1)[np.lexsort(np.round(A, 6).T)]
        ctx.close('Gauss-Hermite points and weights', key(np.asarray(rule.xi), np.asarray(rule.w)), key(g, ww), 1e-6, case=name)
    if p == 3:
        r3 = SigmaPoints.gauss_hermite(d)
        ctx.close('default order', np.asarray(r3.xi), np.asarray(rule.xi), 1e-14, case=name)
    ctx.sample(dict(rule=name, d=d, monomial=mis[-1]))


def cubature(ctx, tier, d, p):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    rule = SigmaPoints.cubature(d)
    common(ctx, rule, d, 2 * d, 'cubature')
    monomials(ctx, rule, d, 2, graded_lexico(d, 3) if d <= 8 else [n for n in unit_monomials(d)], 'cubature', 1e-12)
    ctx.close('equal weights', rule.w, np.full(2 * d, 0.5 / d), 1e-15, case=d)
    ctx.close('points on the sphere', np.linalg.norm(np.asarray(rule.xi), axis=1), np.full(2 * d, math.sqrt(d)), 1e-12, case=d)
    ctx.sample(dict(rule='cubature', d=d))


def unit_monomials(d):
    e = lambda *ii: tuple(sum(a == i for i in ii) for a in range(d))
    return [(0,) * d] + [e(i) for i in range(d)] + [e(i, j) for i in range(d) for j in range(i, d)] + [e(i, i, j) for i in range(d) for j in range(d)]


def expectation(ctx, tier, d, p):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.quadratures import gaussian_expectation
    ms = [Fr(0), Fr(1, 2), Fr(-2), Fr(3)]
    cs = [Fr(1), Fr(1, 3), Fr(2), Fr(1, 100)]
    pairs = list(itertools.product(ms, cs))
    m1 = jnp.asarray([float(a) for a, _ in pairs])
    c1 = jnp.asarray([float(b) for _, b in pairs])
    exact = lambda k: np.array([float(mvn_moments([a], [[b * b]], [(i,) for i in range(k + 1)])[(k,)]) for a, b in pairs])
    absol = lambda k: np.array([float(mvn_moments([abs(a)], [[b * b]], [(i,) for i in range(k + 1)])[(k,)]) for a, b in pairs])
    for order in (None, 1, 2, 3, 5, 10, 20, 30):
        kw = {} if order is None else dict(order=order)
        top = 2 * (order or 10) - 1
        for k in range(min(top, 19) + 1):
            case = dict(order=order, power=k)
            tol = 1e-9 * (absol(k) + absol(k + k % 2) ** 1.) + 1e-12
            f = lambda x: x ** k
            a = gaussian_expectation(m1[:, None], c1[:, None, None], f, **kw)
            ctx.close('gaussian_expectation', a, exact(k)[:, None], tol[:, None], case=case)
            if k in (1, 2, 3):
                b = gaussian_expectation(m1, c1, f, force_shape=True, **kw)
                ctx.close('gaussian_expectation (force_shape)', b, exact(k)[:, None], tol[:, None], case=case)
                b = gaussian_expectation(m1.reshape(4, 4), c1.reshape(4, 4), f, d=1, force_shape=True, **kw)
                ctx.close('gaussian_expectation (force_shape from a matrix)', b, exact(k)[:, None], tol[:, None], case=case)
                b = jax.jit(lambda m, c: gaussian_expectation(m, c, f, **kw))(m1[:, None], c1[:, None, None])
                ctx.close('gaussian_expectation (jit)', b, exact(k)[:, None], tol[:, None], case=case)
                ctx.trace(3)
            ctx.state(('ge', order, k))
            ctx.trans(len(pairs))
            ctx.trace()
            ctx.outcomes.update(exact(k).tolist())
    for d in (2, 3):
        ls = laws(d)
        M = jnp.asarray(np.array([fl(m) for m, _ in ls]))
        C = jnp.asarray(np.array([fl(L) for _, L in ls]))
        for order in (2, 3, 4):
            for n in graded_lexico(d, 3):
                want = [float(mvn_moments(m, cov_of(L), graded_lexico(d, 3))[n]) for m, L in ls]
                got = gaussian_expectation(M, C, lambda x: jnp.prod(x ** jnp.array(n), axis=-1), d=d, order=order)
                ctx.close('gaussian_expectation in several dimensions', got, want, 1e-9 * 40, case=dict(d=d, order=order, monomial=n))
                ctx.state(('ge', d, order, n))
                ctx.trans(len(ls))
                ctx.trace()
    ctx.sample(dict(function='x^k', mean='1/2', chol='1/3'))
