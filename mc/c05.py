"""C05: the 1D moment quadrature is the Gauss rule of its moments; the Taylor quadrature is exact on polynomials."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc import gauss
from mc.common import FLOAT_TRUST, fl

RULE = ('A state is one finitely supported (or named continuous) distribution with rational data; it is explored for every '
        'number of nodes, representation (raw, central, scaled), sort flag, factorisation flag and execution mode. All '
        'subsets of a rational grid combined with all weight patterns of the bounds are enumerated.')
ASSUMPTIONS = [FLOAT_TRUST, 'distributions whose Hankel matrix is well conditioned (bounded grids), except for the explicitly singular ones']


def cfg(tier):
    if tier == 'quick':
        return dict(grid=7, maxN=5, wpat=3, cont=7, taylor=7)
    return dict(grid=9, maxN=6, wpat=6, cont=9, taylor=9)


def bounds(tier):
    return dict(cfg(tier), representations=['raw', 'central', 'scaled'], sort=[False, True], ldl=[False, True])


def units(tier):
    c = cfg(tier)
    us = []
    for N in range(1, c['maxN'] + 1):
        for ldl in (False, True):
            for S in range(N, min(N + 3, c['grid']) + 1):
                us.append((f'finite N={N} atoms={S} ldl={ldl}', ['finite', N, S, ldl], 5 + N))
    for N in range(1, c['cont'] + 1):
        us.append((f'continuous N={N}', ['cont', N, 0, False], 4 + N))
    for N in range(2, c['maxN'] + 1):
        for S in range(1, N):
            us.append((f'singular N={N} atoms={S}', ['singular', N, S, True], 4))
    for N in range(2, c['maxN']):
        us.append((f'rare atoms N={N}', ['rare', N, N, False], 8))
    for N in range(1, c['maxN'] + 1):
        us.append((f'units of measurement N={N}', ['homog', N, N, False], 5))
    us.append(('taylor', ['taylor', 0, 0, False], 20))
    return us


def grid(n):
    return [Fr(2 * i - (n - 1), n - 1) * Fr(3, 2) for i in range(n)]


def weight_patterns(S, k):
    pats = [[Fr(1)] * S, [Fr(1 + i) for i in range(S)], [Fr(1 + (3 * i + 1) % 4) for i in range(S)],
            [Fr(S - i) for i in range(S)], [Fr(1 + (i % 2) * 6) for i in range(S)], [Fr(1, 20) if i == S // 2 else Fr(1) for i in range(S)]]
    out = []
    for p in pats[:k]:
        q = [v / sum(p) for v in p]
        if q not in out:
            out.append(q)
    return out


def dists(tier, S):
    c = cfg(tier)
    for atoms in itertools.combinations(grid(c['grid']), S):
        for w in weight_patterns(S, c['wpat']):
            yield list(atoms), w


def mom(atoms, w, n, centre=Fr(0)):
    return sum(p * (a - centre) ** n for a, p in zip(atoms, w))


def run_unit(ctx, tier, kind, N, S, ldl):
    {'finite': finite, 'cont': continuous, 'singular': singular, 'taylor': taylor, 'rare': rare, 'homog': homogeneous}[kind](ctx, tier, N, S, ldl)


def quad(rms, cms, mean, scms, scale, ldl, sort):
    from mfs.one_dim.quadtures import moment_quadrature
    return (moment_quadrature(rms, sort_nodes=sort, ldl=ldl),
            moment_quadrature(cms, mean, sort_nodes=sort, ldl=ldl),
            moment_quadrature(scms, mean, scale, sort_nodes=sort, ldl=ldl))


def check_rule(ctx, label, N, w, x, wref, xref, tol, case):
    """Compare a quadrature rule up to the order of its nodes."""
    w, x = np.asarray(w), np.asarray(x)
    if not ctx.ok(w.shape == (N,) and x.shape == (N,), f'{label}: shapes', case, (w.shape, x.shape)):
        return
    o = np.argsort(x)
    span = max(np.ptp(xref), 1e-300) if N > 1 else max(abs(xref[0]), 1.)
    ctx.close(f'{label}: nodes', x[o], xref, tol * span, rtol=1e-13, case=case)
    ctx.close(f'{label}: weights', w[o], wref, tol, case=case)


def finite(ctx, tier, N, S, ldl):
    import jax
    import jax.numpy as jnp
    data = list(dists(tier, S))
    m = 2 * N + 1  # one moment more than used; odd-length inputs are legal
    rms, cms, means, scms, scales, refs = [], [], [], [], [], []
    for atoms, w in data:
        mu = mom(atoms, w, 1)
        cm = [mom(atoms, w, n, mu) for n in range(m)]
        var = mom(atoms, w, 2, mu)
        sc = math.sqrt(var) if var else 1.
        rms.append([float(mom(atoms, w, n)) for n in range(m)])
        cms.append([float(v) for v in cm])
        scms.append([float(v) / sc ** n for n, v in enumerate(cm)])
        means.append(float(mu))
        scales.append(sc)
        if S == N:
            refs.append((fl(atoms), fl(w)))
        else:
            xs, ws = gauss.gauss_1d([mom(atoms, w, n, mu) for n in range(2 * N)], N)
            refs.append((np.array([float(v) for v in xs]) + float(mu), np.array([float(v) for v in ws])))
        ctx.state((N, tuple(atoms), tuple(w)))
        ctx.trans(3)
    rms, cms, means, scms, scales = map(jnp.array, (rms, cms, means, scms, scales))
    xref = np.stack([r[0] for r in refs])
    wref = np.stack([r[1] for r in refs])
    tol = {1: 1e-12, 2: 1e-12, 3: 1e-11, 4: 1e-9, 5: 1e-8, 6: 1e-7}[N]
    for extra in (0, 1):
        for sort in (False, True):
            f = jax.jit(jax.vmap(lambda r, c, mu, s, sc: quad(r[:2 * N + extra], c[:2 * N + extra], mu, s[:2 * N + extra], sc, ldl, sort)))
            out = f(rms, cms, means, scms, scales)
            for name, (w, x) in zip(('raw', 'central', 'scaled'), out):
                w, x = np.asarray(w), np.asarray(x)
                label = f'{name}{" sorted" if sort else ""}{" odd length" if extra else ""}'
                if not ctx.ok(w.shape == wref.shape and x.shape == xref.shape, f'{label}: shapes', (N, S), (w.shape, x.shape)):
                    continue
                if sort:
                    ctx.ok(np.all(np.diff(x, axis=1) >= 0), f'{label}: ascending nodes', (N, S))
                o = np.argsort(x, axis=1)

                def desc(i):
                    return dict(N=N, atoms=data[i[0]][0], weights=data[i[0]][1], representation=name, ldl=ldl, sort=sort)

                ctx.close(f'{label}: nodes', np.take_along_axis(x, o, 1), xref, tol * 3, describe=desc)
                ctx.close(f'{label}: weights', np.take_along_axis(w, o, 1), wref, tol, describe=desc)
                ctx.ok(np.all(w >= 0), f'{label}: non-negative weights', (N, S))
                ctx.close(f'{label}: weights sum to one', w.sum(1), np.ones(len(data)), 1e-12, describe=desc)
                # exactness on every monomial the rule must integrate
                got = np.einsum('bi,bin->bn', w, x[:, :, None] ** np.arange(2 * N))
                ctx.close(f'{label}: reproduces the moments', got, np.asarray(rms)[:, :2 * N], tol * 1.5 ** np.arange(2 * N) * 10, describe=desc)
                ctx.trace(len(data))
    # eager execution with python float mean and scale, default flags
    from mfs.one_dim.quadtures import moment_quadrature
    for b in (0, len(data) // 2, len(data) - 1):
        case = dict(N=N, atoms=data[b][0], weights=data[b][1], ldl=ldl)
        kw = dict(ldl=True) if ldl else {}
        check_rule(ctx, 'eager raw', N, *moment_quadrature(rms[b, :2 * N], **kw), wref[b], xref[b], tol * 3, case)
        check_rule(ctx, 'eager central', N, *moment_quadrature(cms[b, :2 * N], float(means[b]), **kw), wref[b], xref[b], tol * 3, case)
        check_rule(ctx, 'eager scaled', N, *moment_quadrature(scms[b, :2 * N], mean=float(means[b]), scale=float(scales[b]), **kw),
                   wref[b], xref[b], tol * 3, case)
        # affine maps: same standardised moments, other locations and scales (also negative, tiny and huge)
        for mu, sc in itertools.product((0., -3.25, 1e6), (1e-6, 0.5, 1., 40., -2.)):
            w, x = moment_quadrature(scms[b, :2 * N], mu, sc, **kw)
            xr = (xref[b] - float(means[b])) / float(scales[b]) * sc + mu
            oo = np.argsort(xr)
            check_rule(ctx, 'affine map', N, w, x, wref[b][oo], xr[oo], tol * 3, dict(case, mean=mu, scale=sc))
        ctx.trace(18)
    ctx.outcomes.update(map(tuple, np.round(xref, 9).tolist()))
    ctx.sample(dict(N=N, atoms=data[0][0], weights=data[0][1], nodes=xref[0].tolist()))


def homogeneous(ctx, tier, N, S, ldl):
    """x -> 2^k x (exact in floats): the nodes scale and the weights stay; no moment is large or small in itself."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import moment_quadrature
    data = list(dists('quick', N))
    data = data[::max(1, len(data) // 40)]
    tol = {1: 1e-12, 2: 1e-12, 3: 1e-11, 4: 1e-9, 5: 1e-8, 6: 1e-7}[N] * 10
    n = np.arange(2 * N)
    fs = {(cen, l): jax.jit(jax.vmap(lambda m, mu, cen=cen, l=l: moment_quadrature(m, mu, ldl=l) if cen else moment_quadrature(m, ldl=l))) for cen in (False, True) for l in (False, True)}
    rms = np.array([[float(mom(a, w, i)) for i in n] for a, w in data])
    mus = [mom(a, w, 1) for a, w in data]
    cms = np.array([[float(mom(a, w, i, mu)) for i in n] for (a, w), mu in zip(data, mus)])
    mus = np.array([float(v) for v in mus])
    for k in (-40, -20, -10, -5, 5, 10, 20, 40):
        for (cen, l), f in fs.items():
            W, X = map(np.asarray, f(jnp.asarray((cms if cen else rms) * 2. ** (k * n)), jnp.asarray(mus * 2. ** k)))
            for b, (a, w) in enumerate(data):
                check_rule(ctx, f'units of measurement ({"central" if cen else "raw"})', N, W[b], X[b] / 2. ** k, fl(w), fl(a), tol, dict(N=N, atoms=a, weights=w, power_of_two=k, ldl=l))
                ctx.state((N, k, tuple(a), tuple(w)))
                ctx.trans()
                ctx.trace()
    ctx.sample(dict(N=N, powers_of_two=40))


def rare(ctx, tier, N, S, ldl):
    """One atom of tiny mass, at every position: it must keep its node and (relative) weight; and one far atom of small mass."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import moment_quadrature
    laws = []
    base = [Fr(2 * i, N - 1) - 1 for i in range(N)]
    masses = [Fr(1, 10 ** k) for k in (range(2, 13) if N <= 3 else range(2, 11))]
    for eps in masses:
        for j in range(N):
            w = [(1 - eps) / (N - 1) if i != j else eps for i in range(N)]
            laws.append((base, w, eps, j, 1))
        if N == 2:
            continue
        for far in (4, 20):
            if eps * far ** (2 * N - 2) < 10 ** 3 and eps >= Fr(1, 10 ** 6):
                laws.append((base[:-1] + [Fr(far)], [(1 - eps) / (N - 1)] * (N - 1) + [eps], eps, N - 1, far))
    for rep in ('raw', 'central', 'scaled'):
        ms, mean, scale = [], [], []
        for atoms, w, *_ in laws:
            mu = mom(atoms, w, 1)
            sd = math.sqrt(mom(atoms, w, 2, mu))
            c = [float(mom(atoms, w, n, mu if rep != 'raw' else Fr(0))) for n in range(2 * N)]
            ms.append([v / sd ** n for n, v in enumerate(c)] if rep == 'scaled' else c)
            mean.append(0. if rep == 'raw' else float(mu))
            scale.append(sd if rep == 'scaled' else 1.)
        for flag in (False, True):
            w, x = jax.jit(jax.vmap(lambda a, m, s: moment_quadrature(a, m, s, sort_nodes=True, ldl=flag)))(*map(jnp.array, (ms, mean, scale)))
            for k, (atoms, wt, eps, j, far) in enumerate(laws):
                case = dict(N=N, atoms=atoms, weights=wt, representation=rep, ldl=flag)
                # a perturbation of the moments of size u moves the rare node by u / eps
                u = {2: 1e-14, 3: 1e-13, 4: 1e-12}.get(N, 1e-10) * far ** (2 * N - 2)
                tol = np.full(N, u)
                if not ctx.ok(np.all(np.isfinite(np.asarray(x[k]))) and np.asarray(x[k]).shape == (N,), 'rare atom: finite rule', case):
                    continue
                tol[j] = u / float(eps)
                if tol[j] > 0.2:
                    continue
                ctx.close('rare atom: nodes', np.asarray(x[k]), fl(atoms), 10 * tol, case=case)
                ctx.close('rare atom: weights', np.asarray(w[k]) / fl(wt), np.ones(N), 10 * tol, case=case)
                ctx.state((N, rep, flag, tuple(atoms), eps))
                ctx.trans()
                ctx.trace()
    ctx.sample(dict(N=N, laws=len(laws)))


def continuous(ctx, tier, N, S, ldl):
    import jax.numpy as jnp
    import mpmath as mp
    from mfs.one_dim.quadtures import moment_quadrature
    K = 2 * N

    def standardise(raw):
        mu = raw[1]
        c = [sum(mp.binomial(n, j) * raw[j] * (-mu) ** (n - j) for j in range(n + 1)) for n in range(K)]
        var = raw[2] - mu ** 2
        return mu, mp.sqrt(var), c

    K3 = max(K, 3)
    fams = {'normal': [mp.mpf(0) if n % 2 else mp.fac2(n - 1) for n in range(K3)],
            'uniform(-1,1)': [mp.mpf(0) if n % 2 else mp.mpf(1) / (n + 1) for n in range(K3)],
            'uniform(0,2)': [mp.mpf(2) ** n / (n + 1) for n in range(K3)],
            'beta(2,3)': [mp.beta(2 + n, 3) / mp.beta(2, 3) for n in range(K3)],
            'arcsine': [mp.mpf(0) if n % 2 else mp.binomial(n, n // 2) / mp.mpf(2) ** n for n in range(K3)]}
    if N <= 5:
        fams['exponential'] = [mp.factorial(n) for n in range(K3)]
        mix = lambda m, v: [sum(mp.binomial(n, j) * m ** (n - j) * mp.sqrt(v) ** j * (0 if j % 2 else mp.fac2(j - 1)) for j in range(n + 1))
                            for n in range(K3)]
        a, b = mix(mp.mpf('-0.5'), mp.mpf('0.05')), mix(mp.mpf('0.75'), mp.mpf('0.2'))
        fams['mixture'] = [(u * 3 + v * 7) / 10 for u, v in zip(a, b)]
    for name, raw in fams.items():
        mu, sd, c = standardise(raw)
        sc = [v / sd ** n for n, v in enumerate(c)]
        xs, ws = gauss.gauss_1d(sc, N)
        G = np.array([[float(sc[i + j]) for j in range(N)] for i in range(N)])
        cond = np.linalg.cond(G)
        tol = 1e-14 * cond * 10
        xref = np.array([float(v) for v in xs])
        wref = np.array([float(v) for v in ws])
        if tol > 1e-4:
            continue
        ctx.state((name, N))
        scj = jnp.array([float(v) for v in sc])
        for flag in (False, True):
            for sort in (False, True):
                w, x = moment_quadrature(scj, float(mu), float(sd), sort_nodes=sort, ldl=flag)
                check_rule(ctx, f'{name} scaled', N, w, x, wref, xref * float(sd) + float(mu), tol, dict(N=N, dist=name, ldl=flag))
                if sort:
                    ctx.ok(np.all(np.diff(np.asarray(x)) > 0) or N == 1, 'ascending nodes', dict(N=N, dist=name))
                cj = jnp.array([float(v) for v in c])
                w, x = moment_quadrature(cj, float(mu), sort_nodes=sort, ldl=flag)
                Gc = np.array([[float(c[i + j]) for j in range(N)] for i in range(N)])
                tc = 1e-13 * np.linalg.cond(Gc)
                if tc < 1e-4:
                    check_rule(ctx, f'{name} central', N, w, x, wref, xref * float(sd) + float(mu), tc, dict(N=N, dist=name, ldl=flag))
                ctx.trans(2)
                ctx.trace(2)
        ctx.outcomes.add(tuple(np.round(xref, 8)))
    ctx.sample(dict(N=N, families=sorted(fams)))


def singular(ctx, tier, N, S, ldl):
    """Fewer atoms than nodes: the Hankel matrix is singular, and the LDL completion must still give a usable rule."""
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import moment_quadrature
    pts = [Fr(-1), Fr(-1, 2), Fr(0), Fr(1, 2), Fr(1)]
    for atoms in itertools.combinations(pts, S):
        ws = [Fr(1, S)] * S if S in (1, 2, 4) else [Fr(1, 2)] + [Fr(1, 4)] * 2 if S == 3 else [Fr(1, 5)] * S
        rms = [mom(atoms, ws, n) for n in range(2 * N)]
        # Only sequences with an exactly representable elimination: the pivots are decided by exact arithmetic.
        piv = exact_pivots(rms, N)
        if piv is None:
            continue
        w, x = moment_quadrature(jnp.array([float(v) for v in rms]), ldl=True)
        w, x = np.asarray(w), np.asarray(x)
        case = dict(N=N, atoms=atoms, weights=ws)
        ctx.state((N, tuple(atoms)))
        ctx.trans()
        ctx.trace()
        if not ctx.ok(np.all(np.isfinite(w)) and np.all(np.isfinite(x)), 'singular moments with LDL: finite rule', case, (w, x)):
            continue
        ctx.ok(np.all(w >= 0), 'singular moments with LDL: non-negative weights', case)
        ctx.close('singular moments with LDL: reproduces the moments', (w[:, None] * x[:, None] ** np.arange(2 * N)).sum(0),
                  [float(v) for v in rms], 1e-6, case=case)
        ctx.outcomes.add(tuple(np.round(x, 6)))
    ctx.sample(dict(N=N, atoms=S))


def exact_pivots(rms, N):
    """LDL of the Hankel matrix in rationals; None unless every quantity is a dyadic rational (hence exact in floats)."""
    A = [[rms[i + j] for j in range(N)] for i in range(N)]
    L = [[Fr(int(i == j)) for j in range(N)] for i in range(N)]
    d = []

    def dyadic(q):
        return q.denominator & (q.denominator - 1) == 0 and q.denominator < 2 ** 20

    for j in range(N):
        dj = A[j][j] - sum(L[j][k] ** 2 * d[k] for k in range(j))
        if not dyadic(dj):
            return None
        d.append(dj)
        for i in range(j + 1, N):
            num = A[i][j] - sum(L[i][k] * L[j][k] * d[k] for k in range(j))
            L[i][j] = num / dj if dj else Fr(0)
            if not dyadic(L[i][j]) or not dyadic(L[i][j] ** 2 * (dj or 1)):
                return None
    return d


def taylor(ctx, tier, N, S, ldl):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import make_derivatives, taylor_quadrature
    order_max = cfg(tier)['taylor']
    ws = [[Fr(1, 3), Fr(2, 3)], [Fr(1, 4), Fr(1, 4), Fr(1, 2)]]
    supports = [[Fr(-1), Fr(2)], [Fr(1, 2), Fr(5, 4), Fr(-1, 4)]]
    for atoms, w in zip(supports, ws):
        mu = mom(atoms, w, 1)
        cms = jnp.array([float(mom(atoms, w, n, mu)) for n in range(order_max + 1)])
        for order in range(0, order_max + 1):
            for deg in range(0, order + 1):
                coef = [Fr(1 + (3 * k + deg) % 5, 2) * (-1) ** k for k in range(deg + 1)]

                def f(x, a, b):
                    return a * sum([float(cf) * x ** k for k, cf in enumerate(coef)], 0.) + b + 0. * x

                got = taylor_quadrature(f, cms, float(mu), order, 2.5, -0.75)
                want = Fr(5, 2) * sum(cf * mom(atoms, w, k) for k, cf in enumerate(coef)) - Fr(3, 4)
                ctx.close('Taylor quadrature of a polynomial', got, float(want), 1e-9, rtol=1e-10, case=dict(atoms=atoms, order=order, degree=deg))
                ctx.state((tuple(atoms), order, deg))
                ctx.trans()
                ctx.trace()
                ctx.outcomes.add(round(float(got), 8))
            # truncation at the order, for a non-polynomial integrand: sum_k f^(k)(mu) cms_k / k!
            got = taylor_quadrature(lambda x: jnp.exp(0.5 * x), cms, float(mu), order)
            want = sum(math.exp(0.5 * float(mu)) * 0.5 ** k * float(cms[k]) / math.factorial(k) for k in range(order + 1))
            ctx.close('Taylor quadrature truncates at its order', got, want, 1e-10, rtol=1e-11, case=dict(atoms=atoms, order=order))
    for order in range(0, order_max + 1):
        for argnum in (0, 1):
            ds = make_derivatives(lambda x, y: x ** 5 * jnp.exp(2. * y), order, argnum)
            ctx.ok(len(ds) == order + 1, 'number of derivatives', order)
            for k, g in enumerate(ds):
                want = (math.perm(5, k) * 1.5 ** (5 - k) if k <= 5 else 0.) * math.exp(1.) if argnum == 0 else 1.5 ** 5 * 2 ** k * math.exp(1.)
                ctx.close('derivative', g(1.5, 0.5), want, 1e-9, rtol=1e-11, case=dict(k=k, argnum=argnum))
    ctx.sample(dict(orders=order_max))
