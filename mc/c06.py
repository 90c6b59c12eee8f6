"""C06: the multidimensional moment quadrature integrates polynomials up to degree 2N-1, and finite supports exactly."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc import gauss, hmm
from mc.c02 import supports
from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST, fl

RULE = ('A state is one probability measure on R^d with rational data (all weight patterns on unisolvent lattices, lattices with '
        'more atoms than nodes per axis, and products and mixtures of named laws); it is explored for every (d, N), '
        'representation, sort flag, factorisation flag and execution mode. The integrals of all monomials up to degree 2N-1 and '
        'the nodes and weights of a 40-digit reference are compared.')
ASSUMPTIONS = [FLOAT_TRUST, 'measures whose Gram matrix is well conditioned']


def cfg(tier):
    if tier == 'quick':
        return dict(dN=[(1, 1), (1, 2), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 2), (6, 1)], w=3)
    return dict(dN=[(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (3, 3), (4, 1),
                    (4, 2), (5, 1), (5, 2), (6, 1), (7, 1)], w=3)


def bounds(tier):
    return dict(dimension_and_N=[str(v) for v in cfg(tier)['dN']], representations=['raw', 'central', 'scaled'], sort=[False, True], ldl=[False, True])


def units(tier):
    us = []
    for d, N in cfg(tier)['dN']:
        s = math.comb(N - 1 + d, d)
        us.append((f'measures d={d} N={N}', ['measures', d, N], 5 + s ** d / 50))
        if 1 < s <= 10 and d < 4:
            us.append((f'rare atoms d={d} N={N}', ['rare', d, N], 5 + s ** d / 50))
        if s <= 10:
            us.append((f'reference nodes d={d} N={N}', ['nodes', d, N], 5 + s ** d / 20))
    for d, N in ((1, 2), (1, 4), (2, 2), (2, 3), (3, 2)):
        us.append((f'units of measurement d={d} N={N}', ['homog', d, N], 6))
    us.append(('Cartesian products', ['cartesian', 0, 0], 3))
    us.append(('singular moments', ['singular', 0, 0], 3))
    return us


def run_unit(ctx, tier, kind, d, N):
    {'measures': measures, 'nodes': nodes_unit, 'cartesian': cartesian, 'singular': singular, 'rare': rare, 'homog': homogeneous}[kind](ctx, tier, d, N)


def finite_moments(atoms, w, mis, centre=None, scale=None):
    d = len(atoms[0])
    centre = centre or [Fr(0)] * d
    K = max(sum(m) for m in mis)
    out = {}
    pw = [[[(a[k] - centre[k]) ** n for n in range(K + 1)] for k in range(d)] for a in atoms]
    for m in mis:
        out[m] = sum(p * math.prod(pw[i][k][m[k]] for k in range(d)) for i, p in enumerate(w))
    return out


def laws(d, N, tier):
    """(name, atoms or None, weights, exact?): measures with finite support; 'exact' if the quadrature must reproduce them."""
    plain, generic = supports(d, N)
    s = len(plain)
    for wp in ('flat', 'ramp', 'bump'):
        yield f'lattice {wp}', plain, hmm.weights(s, wp), True
        yield f'generic {wp}', generic, hmm.weights(s, wp), True
    # a richer support: the lattice of the next two degrees
    for e in (1, 2):
        p2, g2 = supports(d, N + e)
        if len(g2) > 400:
            continue
        yield f'rich lattice +{e}', p2, hmm.weights(len(p2), 'bump'), False
        yield f'rich generic +{e}', g2, hmm.weights(len(g2), 'ramp'), False
    # full tensor grid
    if (N + 1) ** d <= 300:
        g = list(itertools.product(*[[Fr(2 * i, N) - 1 if N else Fr(0) for i in range(N + 1)] for _ in range(d)]))
        yield 'tensor grid', g, hmm.weights(len(g), 'ramp'), False


def measures(ctx, tier, d, N):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    mis = graded_lexico(d, 2 * N - 1)
    ctx.ok(np.array_equal(np.asarray(generate_graded_lexico_multi_indices(d, 2 * N - 1)).reshape(-1, d), np.array(mis).reshape(-1, d)),
           'order of the moments', (d, N))
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    s = math.comb(N - 1 + d, d)
    M = np.array(mis).reshape(-1, d)
    data = list(laws(d, N, tier))
    raws, cens, means, scas, scales = [], [], [], [], []
    for name, atoms, w, exact in data:
        mean = [sum(p * a[k] for p, a in zip(w, atoms)) for k in range(d)]
        var = [sum(p * (a[k] - mean[k]) ** 2 for p, a in zip(w, atoms)) for k in range(d)]
        scale = [math.sqrt(v) if v else 1. for v in var]
        r = finite_moments(atoms, w, mis)
        c = finite_moments(atoms, w, mis, mean)
        raws.append([float(r[m]) for m in mis])
        cens.append([float(c[m]) for m in mis])
        scas.append([float(c[m]) / math.prod(sc ** k for sc, k in zip(scale, m)) for m in mis])
        means.append([float(v) for v in mean])
        scales.append(scale)
        ctx.state((d, N, name))
        ctx.trans(3)
    raws, cens, means, scas, scales = map(np.array, (raws, cens, means, scas, scales))
    conds = []
    Gi = np.asarray(inds)[0]
    for q in scas:
        conds.append(np.linalg.cond(q[Gi]))
    tol = np.maximum(1e-11, 1e-14 * np.array(conds) * 10)
    dirs = [np.array(v[:d]) for v in ([0.5, -0.25, 0.75, 0.3, -0.6, 0.2, 0.1], [-1., 0.5, 0.25, -0.4, 0.2, 0.9, 0.3], [0.3, 0.9, -0.5, 1., 0.4, -0.2, 0.5])]
    jobs = {'raw': lambda i, sort, ldl: moment_quadrature_nd(i[0], inds, sort_nodes=sort, ldl=ldl),
            'central': lambda i, sort, ldl: moment_quadrature_nd(i[1], inds, i[2], sort_nodes=sort, ldl=ldl),
            'scaled': lambda i, sort, ldl: moment_quadrature_nd(i[3], inds, i[2], i[4], sort_nodes=sort, ldl=ldl)}
    inp = tuple(jnp.asarray(v) for v in (raws, cens, means, scas, scales))
    for ldl in (False, True):
        for sort in ((False, True) if s ** d <= 2000 else (True,)):
            f = jax.jit(jax.vmap(lambda i: {k: fn(i, sort, ldl) for k, fn in jobs.items()}))
            out = f(inp)
            for rep, (w, x) in out.items():
                w, x = np.asarray(w), np.asarray(x)
                label = f'{rep} sort={sort} ldl={ldl}'
                if not ctx.ok(w.shape == (len(data), s ** d) and x.shape == (len(data), s ** d, d), f'{label}: shapes', (d, N), (w.shape, x.shape)):
                    continue
                for b, (name, atoms, wt, exact) in enumerate(data):
                    case = dict(d=d, N=N, measure=name, representation=rep, sort=sort, ldl=ldl)
                    size = np.maximum(np.abs(fl(atoms)).max(0), 1.)
                    mono = np.prod(x[b][:, None, :] ** M[None], axis=-1)
                    ctx.close(f'{rep}: integrates monomials', w[b] @ mono, raws[b], tol[b] * np.prod(size ** M, axis=1) * 10, case=case,
                              describe=lambda i: dict(case, monomial=mis[i[0]]))
                    ctx.close(f'{rep}: weights sum to one', w[b].sum(), 1., 1e-10, case=case)
                    if exact:
                        for c in dirs:
                            want = sum(float(p) * math.exp(float(np.dot(c, fl(a)))) for p, a in zip(wt, atoms))
                            ctx.close(f'{rep}: finite support is reproduced', w[b] @ np.exp(x[b] @ c), want, tol[b] * 100, case=case)
                    if sort:
                        # the Cartesian product of ascending axes
                        g = x[b].reshape((s,) * d + (d,))
                        for k in range(d):
                            gk = np.moveaxis(g[..., k], k, 0).reshape(s, -1)
                            ctx.ok(np.ptp(gk, axis=1).max() <= 1e-12 * max(1., np.abs(gk).max()), 'nodes form a product grid', case)
                            ctx.ok(np.all(np.diff(gk[:, 0]) >= -1e-12), 'nodes ascend along every axis', case)
                    ctx.trace()
            ctx.outcomes.update(np.round(out['raw'][1][:, 0, 0], 6).tolist())
    # eager, with NumPy indices and lists of other locations and scales
    for b in (0, 1, len(data) - 1):
        name, atoms, wt, exact = data[b]
        for mu, sc in ((np.zeros(d), np.ones(d)), (np.linspace(-3., 2., d), np.linspace(0.5, 20., d)), (np.full(d, 1e4), np.full(d, 1e-3))):
            w, x = moment_quadrature_nd(jnp.asarray(scas[b]), np.asarray(inds), jnp.asarray(mu), jnp.asarray(sc))
            u = (np.asarray(x) - mu) / sc
            case = dict(d=d, N=N, measure=name, mean=mu.tolist(), scale=sc.tolist())
            size = np.maximum(np.abs((fl(atoms) - means[b]) / scales[b]).max(0), 1.)
            # cancellation in (x - mean) / scale
            lost = 1e-14 * np.max(np.abs(mu) / sc) * 2 * N
            ctx.close('eager: affine map', np.asarray(w) @ np.prod(u[:, None, :] ** M, axis=-1), scas[b], (tol[b] + lost) * np.prod(size ** M, axis=1) * 20, case=case)
            ctx.trace()
    if d == 1:
        from mfs.one_dim.quadtures import moment_quadrature
        for b in range(len(data)):
            w1, x1 = moment_quadrature(jnp.asarray(scas[b]), float(means[b][0]), float(scales[b][0]), sort_nodes=True)
            w, x = moment_quadrature_nd(jnp.asarray(scas[b]), inds, jnp.asarray(means[b]), jnp.asarray(scales[b]), sort_nodes=True)
            ctx.close('d = 1: nodes of the 1D rule', np.asarray(x)[:, 0], x1, tol[b] * 10, case=data[b][0])
            ctx.close('d = 1: weights of the 1D rule', w, w1, tol[b] * 10, case=data[b][0])
    ctx.sample(dict(d=d, N=N, measure=data[0][0], atoms=data[0][1][:3]))


def homogeneous(ctx, tier, d, N):
    """Coordinates in other units (powers of two, exact in floats): the rule must integrate the rescaled monomials."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    mis = graded_lexico(d, 2 * N - 1)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    M = np.array(mis).reshape(-1, d)
    powers = [[k] * d for k in (-30, -15, -8, 8, 15, 30)]
    if d > 1:
        powers += [[20, -20, 3][:d], [-12, 0, 12][:d], [0, -25, 10][:d]]
    fs = {(cen, l): jax.jit(lambda m, mu, cen=cen, l=l: moment_quadrature_nd(m, inds, mu if cen else None, ldl=l)) for cen in (False, True) for l in (False, True)}
    for name, atoms, w, exact in laws(d, N, tier):
        mean = [sum(p * a[k] for p, a in zip(w, atoms)) for k in range(d)]
        r, c = finite_moments(atoms, w, mis), finite_moments(atoms, w, mis, mean)
        r, c, mean = np.array([float(r[m]) for m in mis]), np.array([float(c[m]) for m in mis]), np.array([float(v) for v in mean])
        size = np.maximum(np.abs(fl(atoms)).max(0), 1.)
        tol = max(1e-11, 1e-13 * np.linalg.cond(c[np.asarray(inds)[0]])) * 10
        for pw in powers:
            D = 2. ** np.array(pw)
            for (cen, l), f in fs.items():
                W, X = map(np.asarray, f(jnp.asarray((c if cen else r) * np.prod(D ** M, axis=1)), jnp.asarray(mean * D)))
                case = dict(d=d, N=N, measure=name, powers_of_two=pw, ldl=l, central=cen)
                ctx.close('units of measurement: integrates monomials', W @ np.prod((X / D)[:, None, :] ** M, axis=-1), r, tol * np.prod(size ** M, axis=1), case=case)
                if exact:
                    u = np.array([0.5, -0.25, 0.75][:d])
                    ctx.close('units of measurement: finite support is reproduced', W @ np.exp((X / D) @ u), sum(float(p) * math.exp(float(np.dot(u, fl(a)))) for p, a in zip(w, atoms)), tol * 100, case=case)
                ctx.trace()
            ctx.state((d, N, name, str(pw)))
            ctx.trans()
    ctx.sample(dict(d=d, N=N, powers_of_two=powers[-1]))


def rare(ctx, tier, d, N):
    """One atom, in every position, with a mass down to 1e-8: it must not be lost."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    mis = graded_lexico(d, 2 * N - 1)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    M = np.array(mis).reshape(-1, d)
    fs = {ldl: jax.jit(lambda m, ldl=ldl: moment_quadrature_nd(m, inds, ldl=ldl)) for ldl in (False, True)}
    for label, supp in zip(('lattice', 'generic'), supports(d, N)):
        s = len(supp)
        for eps in (Fr(1, 10 ** 3), Fr(1, 10 ** 5), Fr(1, 10 ** 8)):
            for pos in range(s):
                w = [eps if i == pos else (1 - eps) / (s - 1) for i in range(s)]
                r = finite_moments(supp, w, mis)
                ms = np.array([float(r[m]) for m in mis])
                case = dict(d=d, N=N, support=label, rare_atom=supp[pos], mass=eps)
                size = np.maximum(np.abs(fl(supp)).max(0), 1.)
                for ldl in (False, True):
                    ww, x = [np.asarray(v) for v in fs[ldl](jnp.asarray(ms))]
                    c = dict(case, ldl=ldl)
                    ctx.close('rare atoms: integrates monomials', ww @ np.prod(x[:, None, :] ** M, axis=-1), ms, 1e-10 * np.prod(size ** M, axis=1), case=c,
                              describe=lambda i: dict(c, monomial=mis[i[0]]))
                    # a bump around the rare atom
                    a = fl(supp[pos])
                    q = np.exp(-np.sum((x - a) ** 2, -1))
                    want = sum(float(p) * math.exp(-float(np.sum((fl(b) - a) ** 2))) for p, b in zip(w, supp))
                    ctx.close('rare atoms: finite support is reproduced', ww @ q, want, 1e-10, case=c)
                    ctx.trace()
                ctx.state((d, N, label, eps, pos))
                ctx.trans()
                ctx.outcomes.add((label, pos))
    ctx.sample(dict(d=d, N=N, mass=Fr(1, 10 ** 8)))


def nodes_unit(ctx, tier, d, N):
    """Nodes and weights against the 40-digit reference, on measures for which every axis has distinct eigenvalues."""
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    mp.mp.dps = 40
    mis = graded_lexico(d, 2 * N - 1)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    s = math.comb(N - 1 + d, d)
    for name, atoms, w, exact in laws(d, N, tier):
        mean = [sum(p * a[k] for p, a in zip(w, atoms)) for k in range(d)]
        c = finite_moments(atoms, w, mis, mean)
        cm = {m: gauss.mpf(c[m]) for m in mis}
        ref = gauss.gauss_nd(cm, d, N)
        axes = [sorted({float(x[k]) for x, _ in ref}) for k in range(d)]
        if any(len(a) < s or (s > 1 and np.min(np.diff(a)) < 1e-3) for a in axes):
            continue
        ref = sorted(ref, key=lambda t: tuple(float(v) for v in t[0]))
        xr = np.array([[float(v) for v in x] for x, _ in ref])
        wr = np.array([float(v) for _, v in ref])
        ctx.state((d, N, name))
        ctx.trans()
        G = np.array([float(c[m]) for m in mis])[np.asarray(inds)[0]]
        tol = max(1e-10, 1e-12 * np.linalg.cond(G))
        if tol > 1e-5:
            continue
        for ldl in (False, True):
            for sort in (True, False):
                ww, x = moment_quadrature_nd(jnp.array([float(c[m]) for m in mis]), inds, jnp.array([float(v) for v in mean]), sort_nodes=sort, ldl=ldl)
                ww, x = np.asarray(ww), np.asarray(x) - np.array([float(v) for v in mean])
                o = np.lexsort(np.round(x, 5).T[::-1]) if not sort else np.arange(len(ww))
                case = dict(d=d, N=N, measure=name, ldl=ldl, sort=sort)
                ctx.close('nodes of the reference', x[o], xr, tol, case=case)
                ctx.close('weights of the reference', ww[o], wr, tol, case=case)
                ctx.trace()
    ctx.sample(dict(d=d, N=N))


def cartesian(ctx, tier, d, N):
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import nd_cartesian_prod, nd_cartesian_prod_2, nd_cartesian_prod_indices
    long = {1: [129, 257, 300, 70000], 2: [17, 129, 257, 300], 3: [17, 33], 4: [7], 6: [3], 9: [2]}
    for d in range(1, 10):
        for n in list(range(1, 8 if d < 4 else 4 if d < 6 else 1)) + long.get(d, []):
            want = list(itertools.product(range(n), repeat=d))
            got = np.asarray(nd_cartesian_prod_indices(d, n))
            ctx.ok(got.shape == (n ** d, d) and [tuple(r) for r in got.tolist()] == want, 'indices of a Cartesian product', (d, n))
            x = np.array([[(i * 7 + j * 3 + i * j) % 29 - 11.5 + 0.01 * (i * n + j) for j in range(n)] for i in range(d)])
            combos = [tuple(x[k, i[k]] for k in range(d)) for i in want]
            case = (d, n)
            for y in (nd_cartesian_prod(jnp.asarray(x)), nd_cartesian_prod(jnp.asarray(x), got), nd_cartesian_prod(jnp.asarray(x), jnp.asarray(got))):
                ctx.ok(y.shape == (n ** d, d) and [tuple(r) for r in np.asarray(y).tolist()] == combos, 'Cartesian product', case)
            y = np.asarray(nd_cartesian_prod_2(jnp.asarray(x)))
            ctx.ok(y.shape == (n ** d, d) and sorted(tuple(r) for r in y.tolist()) == sorted(combos), 'Cartesian product (meshgrid)', case)
            ctx.state(case)
            ctx.trans(len(want))
            ctx.trace(4)
            ctx.outcomes.add(case)
    ctx.sample(dict(d=3, n=2))


def singular(ctx, tier, d, N):
    """Moments of fewer atoms than the quadrature needs: the LDL completion must give a finite rule with the right integrals."""
    import jax.numpy as jnp
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    cases = []
    for d in (1, 2, 3):
        for N in (2, 3):
            if d == 3 and N == 3:
                continue
            pts = [tuple(Fr(((i >> k) & 1) * 2 - 1, 1 + k) for k in range(d)) for i in range(2 ** d)]
            for S in (1, 2):
                for sub in itertools.combinations(pts, S):
                    cases.append((d, N, sub))
    for d, N, sub in cases:
        mis = graded_lexico(d, 2 * N - 1)
        inds = gram_and_hankel_indices_graded_lexico(N, d)
        w = [Fr(1, len(sub))] * len(sub)
        r = finite_moments(sub, w, mis)
        ms = np.array([float(r[m]) for m in mis])
        ww, x = moment_quadrature_nd(jnp.asarray(ms), inds, ldl=True)
        ww, x = np.asarray(ww), np.asarray(x)
        case = dict(d=d, N=N, atoms=sub)
        ctx.state((d, N, sub))
        ctx.trans()
        ctx.trace()
        if ctx.ok(np.all(np.isfinite(ww)) and np.all(np.isfinite(x)), 'singular moments with LDL: finite rule', case):
            M = np.array(mis).reshape(-1, d)
            ctx.close('singular moments with LDL: integrals', ww @ np.prod(x[:, None, :] ** M, axis=-1), ms, 1e-6, case=case)
    ctx.sample(dict(cases=len(cases)))
