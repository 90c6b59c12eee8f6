"""C02: the multidimensional moment filters are exact on finite-support models, for every observation history."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc import hmm
from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST, fl, words

RULE = ('A state is the exact rational posterior over the atoms in R^d after one observation history; transitions are '
        'observations. All histories up to the horizon are explored for every (d, N), model, moment representation, '
        'callback signature and stability flag, and every prefix is compared with the exact state.')
ASSUMPTIONS = [FLOAT_TRUST, 'supports of comb(N-1+d, d) atoms that are unisolvent for polynomials of degree N-1']


def cfg(tier):
    if tier == 'quick':
        return {(1, 1): 4, (1, 2): 4, (1, 3): 4, (1, 4): 4, (2, 1): 4, (2, 2): 4, (2, 3): 4, (2, 4): 2, (3, 1): 3, (3, 2): 4,
                (3, 3): 1, (4, 1): 3, (4, 2): 2, (5, 2): 1}
    return {(1, 1): 6, (1, 2): 6, (1, 3): 6, (1, 4): 6, (1, 5): 5, (2, 1): 6, (2, 2): 6, (2, 3): 5, (2, 4): 4, (3, 1): 5,
            (3, 2): 5, (3, 3): 2, (4, 1): 4, (4, 2): 4, (5, 2): 2}


def bounds(tier):
    return dict(alphabet=3, history_length={f'd={d} N={N}': T for (d, N), T in cfg(tier).items()},
                modes=['raw', 'central', 'scaled'], stable=[False, True], signatures=['multi-index', 'index'])


def units(tier):
    us = []
    for (d, N), T in cfg(tier).items():
        for mode in ('raw', 'central', 'scaled'):
            if mode == 'scaled' and N == 1:
                continue
            for stable in (False, True):
                big = (d, N) in ((3, 3), (5, 2), (2, 4))
                if big and stable and mode == 'central' and tier == 'quick':
                    continue
                s = math.comb(N - 1 + d, d)
                us.append((f'd={d} N={N} {mode} stable={stable}', [d, N, T, mode, stable], s ** d * math.comb(2 * N - 1 + d, d) + 1))
    for d, N in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2)):
        for mode in ('raw', 'central', 'scaled'):
            if not (mode == 'scaled' and d == 1 and N == 2):
                us.append((f'fewer atoms d={d} N={N} {mode}', [d, N, 3, mode, 'degenerate'], 200 * d * N))
            for stable in (False, True):
                if d < 3 or stable or tier == 'thorough':
                    us.append((f'long d={d} N={N} {mode} stable={stable}', [d, N, LONG[tier], mode, 'long', stable], 200 * d * N))
    for mode in ('raw', 'central', 'scaled'):
        for d, N in ((1, 2), (2, 2), (2, 3), (3, 2)):
            us.append((f'units of measurement d={d} N={N} {mode}', [d, N, 2, mode, 'homog'], 200 * d * N))
        for d, N in ((1, 9), (2, 8), (2, 9), (3, 4)) + (((3, 5),) if tier == 'thorough' else ()):
            us.append((f'many moments d={d} N={N} {mode}', [d, N, 2, mode, 'many'], 300 * d * N))
    return us


LONG = dict(quick=40, thorough=100)


def supports(d, N):
    lat = graded_lexico(d, N - 1)
    s = len(lat)
    plain, generic = [], []
    h = Fr(2, max(N - 1, 1))
    for i, a in enumerate(lat):
        plain.append(tuple(Fr(-1) + h * a[k] + Fr(k, 4) for k in range(d)))
        # distinct coordinates along every axis
        generic.append(tuple(Fr(-1) + h * a[k] * Fr(9, 10) + Fr(k, 5) + Fr((7 * i + 3 * k * i + 2 * i * i) % (2 * s + 1), 6 * s + 3)
                             for k in range(d)))
    return plain, generic


def models(d, N, mode):
    plain, generic = supports(d, N)
    s = len(plain)
    out = []

    def add(name, atoms, init, P, L):
        out.append(hmm.Model(name, atoms, hmm.weights(s, init), hmm.rows(s, P), hmm.likelihoods(s, L)))

    shift = [Fr(1, 4) if mode == 'raw' else Fr(5 - 4 * k) for k in range(d)]
    mult = [Fr(1)] * d if mode == 'raw' else ([Fr(1, 2), Fr(2), Fr(3, 4), Fr(1), Fr(1)][:d] if mode == 'central'
                                              else [Fr(1, 100), Fr(30), Fr(1), Fr(1, 7), Fr(9)][:d])
    add('lattice mix', plain, 'ramp', 'mix', 'plain')
    add('generic mix scaled-likelihood', generic, 'bump', 'mix', 'scaled')
    add('generic permutation', generic, 'flat', 'perm', 'flat')
    add('generic independent', generic, 'ramp', 'independent', 'plain')
    add('shifted anisotropic sticky', [tuple(a[k] * mult[k] + shift[k] for k in range(d)) for a in generic], 'ramp', 'sticky', 'plain')
    return out


def solve_exact(A, B):
    """Gauss--Jordan elimination over the rationals."""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [v * iv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [v - f * w for v, w in zip(M[r], M[c])]
    return [row[n:] for row in M]


def params(model, d, N):
    import jax.numpy as jnp
    lat = graded_lexico(d, N - 1)
    # centre and scale the interpolation variable for conditioning
    lo = [min(a[k] for a in model.atoms) for k in range(d)]
    hi = [max(a[k] for a in model.atoms) for k in range(d)]
    mid = [(l + h) / 2 for l, h in zip(lo, hi)]
    half = [(h - l) / 2 or Fr(1) for l, h in zip(lo, hi)]
    s = model.s
    V = [[math.prod(((a[k] - mid[k]) / half[k]) ** m[k] for k in range(d)) for m in lat] for a in model.atoms]
    C = solve_exact(V, [[Fr(int(i == j)) for j in range(s)] for i in range(s)])  # lat x atoms
    return dict(atoms=jnp.array(fl(model.atoms)), P=jnp.array(fl(model.P)), L=jnp.array(fl(model.L)),
                C=jnp.array(fl(C)), mid=jnp.array(fl(mid)), half=jnp.array(fl(half)))


def callbacks(par, d, N, signature):
    import jax.numpy as jnp
    lat = np.array(graded_lexico(d, N - 1)).reshape(-1, d)
    mis = jnp.asarray(np.array(graded_lexico(d, 2 * N - 1)).reshape(-1, d))
    atoms, P, L = par['atoms'], par['P'], par['L']

    def basis(x):
        u = (x - par['mid']) / par['half']
        return jnp.prod(u[..., None, :] ** lat, axis=-1) @ par['C']

    def sel(n):
        return n if signature == 'multi-index' else mis[n]

    def raw(x, n):
        return basis(x) @ P @ jnp.prod(atoms[:, None, :] ** sel(n), axis=-1)

    def central(x, n, mean):
        return basis(x) @ P @ jnp.prod((atoms[:, None, :] - mean) ** sel(n), axis=-1)

    def scaled(x, n, mean, scale):
        return basis(x) @ P @ jnp.prod(((atoms[:, None, :] - mean) / scale) ** sel(n), axis=-1)

    def cmean(x):
        return basis(x) @ P @ atoms

    def cmean_vars(x):
        B = basis(x) @ P
        m = B @ atoms
        return m, B @ atoms ** 2 - m ** 2

    def pdf(y, x):
        k, one = hmm.decode(jnp.ravel(y)[0])
        return basis(x) @ L[k] * one

    c = par.get('origin')
    if c is None:
        return raw, central, scaled, cmean, cmean_vars, pdf
    # the same model in coordinates with another origin
    return (None, lambda x, n, mean: central(x - c, n, mean - c), lambda x, n, mean, scale: scaled(x - c, n, mean - c, scale),
            lambda x: cmean(x - c) + c, lambda x: (cmean(x - c) + c, cmean_vars(x - c)[1]), lambda y, x: pdf(y, x - c))


def run_filter(mode, stable, signature, par, ini, ys, d, N, jax_order=False):
    import jax.numpy as jnp
    from mfs.multi_dims import moment_filter_nd_cms, moment_filter_nd_rms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    raw, central, scaled, cmean, cmean_vars, pdf = callbacks(par, d, N, signature)
    mis = generate_graded_lexico_multi_indices(d, 2 * N - 1)
    order = (jnp.asarray(mis) if jax_order else mis, gram_and_hankel_indices_graded_lexico(N, d))
    if mode == 'raw':
        return moment_filter_nd_rms((raw, signature), pdf, ys, order, ini['rms'], stable=stable)
    if mode == 'central':
        return moment_filter_nd_cms((central, signature), cmean, pdf, ys, order, ini['cms'], ini['mean'], stable=stable)
    return moment_filter_nd_scms((scaled, signature), cmean_vars, pdf, ys, order, ini['scms'], ini['mean'], ini['scale'],
                                 stable=stable)


TOL = {1: 1e-11, 2: 1e-10, 3: 1e-9, 4: 3e-8, 5: 1e-6}


def compare(ctx, mode, d, N, model, out, exp, ws, label, tol=None, tol_ll=None, degree=None):
    mis = graded_lexico(d, 2 * N - 1)
    z = len(mis)
    T, B = len(ws[0]), len(ws)
    tol = tol or TOL[N]
    tol_ll = tol_ll or 10 * tol
    if degree is not None:
        # compare the moments up to this degree only
        z = sum(sum(m) <= degree for m in mis)
        mis = mis[:z]
        out = [out[0][..., :z]] + list(out[1:])
    cache = {}

    def summ(p):
        k = tuple(p)
        if k not in cache:
            cache[k] = hmm.summary_nd(model.atoms, p, mis)
        return cache[k]

    S = [[summ(p) for p, _ in exp[w]] for w in ws]

    def arr(k):
        return np.array([[S[b][t][k] for t in range(T)] for b in range(B)], dtype='float64')

    def desc(i):
        return dict(model=model.name, d=d, N=N, mode=mode, history=ws[i[0]], time=int(i[1]) + 1 if len(i) > 1 else T,
                    multi_index=mis[i[2]] if len(i) > 2 else None)

    A = fl(model.atoms)
    spread = A.max(0) - A.min(0)
    spread[spread == 0] = 1.
    M = np.array(mis).reshape(z, d)
    if mode == 'raw':
        ctx.close(f'{label}: filtering raw moments', out[0], arr(0), tol * np.prod(np.maximum(np.abs(A).max(0), 1.) ** M, axis=1), describe=desc)
    else:
        ctx.close(f'{label}: filtering means', out[1], arr(1), tol * spread, rtol=1e-12,
                  describe=lambda i: desc(i[:2]))
        if mode == 'central':
            ctx.close(f'{label}: filtering central moments', out[0], arr(2), tol * np.prod(spread ** M, axis=1), describe=desc)
        else:
            sc = arr(3)
            ctx.close(f'{label}: filtering scales', out[2], sc, tol * spread, describe=lambda i: desc(i[:2]))
            ctx.close(f'{label}: filtering scaled central moments', out[0], arr(4),
                      tol * np.prod((spread / sc)[:, :, None, :] ** M, axis=-1), describe=desc)
    ctx.close(f'{label}: negative log likelihood', out[-1], [-exp[w][-1][1] for w in ws], tol_ll, rtol=1e-13,
              describe=lambda i: dict(model=model.name, d=d, N=N, mode=mode, history=ws[i[0]]))
    ctx.trace(B)


def initial(mod, mis):
    import jax.numpy as jnp
    r, mean, c, scale, sc = hmm.summary_nd(mod.atoms, mod.init, mis)
    return dict(rms=jnp.array(r), mean=jnp.array(mean), cms=jnp.array(c), scale=jnp.array(scale), scms=jnp.array(sc))


def degenerate(ctx, tier, d, N, T, mode):
    """The state lives on fewer atoms than the rule has (singular Gram matrices): stable=True must still be exact up to the completion."""
    import jax
    import jax.numpy as jnp
    mis = graded_lexico(d, 2 * N - 1)
    s = math.comb(N - 1 + d, d)
    ws = words(range(3), T)
    ys = jnp.array(hmm.encode(ws))
    f = jax.jit(jax.vmap(lambda p, i, y: run_filter(mode, True, 'multi-index', p, i, y, d, N), in_axes=(None, None, 0)))
    for name, atoms in zip(('lattice', 'generic'), supports(d, N)):
        for keep in [tuple(range(S)) for S in range(1, s)] + [tuple(range(1, s))]:
            if mode == 'scaled' and any(len({atoms[i][k] for i in keep}) == 1 for k in range(d)):
                continue
            init = [Fr(int(i in keep), len(keep)) for i in range(s)]
            P = [[Fr(2 + (3 * i + 5 * j + i * j) % 7) if j in keep else Fr(0) for j in range(s)] for i in range(s)]
            P = [[v / sum(r) for v in r] for r in P]
            mod = hmm.Model(f'{name} on atoms {keep}', atoms, init, P, hmm.likelihoods(s, 'plain'))
            tree = hmm.explore(mod, T, ctx, (d, N))
            exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
            out = [np.asarray(o) for o in f(params(mod, d, N), initial(mod, mis), ys)]
            ctx.ok(np.all(np.isfinite(out[0])), 'fewer atoms: moments are not finite', mod.name)
            compare(ctx, mode, d, N, mod, out, exp, ws, 'fewer atoms', tol=1e-5, tol_ll=1e-5, degree=2)
    ctx.sample(dict(d=d, N=N, mode=mode))


def long(ctx, tier, d, N, T, mode, stable):
    import jax
    import jax.numpy as jnp
    mis = graded_lexico(d, 2 * N - 1)
    per = [w for k in (1, 2, 3) for w in words(range(3), k)]
    ws = sorted({tuple(itertools.islice(itertools.cycle(w), T)) for w in per})
    f = jax.jit(jax.vmap(lambda p, i, y: run_filter(mode, stable, 'multi-index', p, i, y, d, N), in_axes=(None, None, 0)))
    for mod in models(d, N, mode)[:2]:
        exp = {w: hmm.run_word(mod, w) for w in ws}
        for w in ws:
            for p, _ in exp[w]:
                ctx.state((mod.name, tuple(round(float(v), 12) for v in p)))
            ctx.trans(T)
        out = [np.asarray(o) for o in f(params(mod, d, N), initial(mod, mis), jnp.array(ws, dtype='float64'))]
        compare(ctx, mode, d, N, mod, out, exp, ws, 'long histories')
    mod = models(d, N, mode)[0]
    exp = {w: hmm.run_word(mod, w, 400) for w in hmm.very_long_words()[:2]}
    ws = [w for w in exp if min(min(p) for p, _ in exp[w]) >= Fr(1, 400)]
    if ws:
        out = [np.asarray(o) for o in f(params(mod, d, N), initial(mod, mis), jnp.array(ws, dtype='float64'))]
        compare(ctx, mode, d, N, mod, out, exp, ws, 'very long histories')
        ctx.state((mod.name, 'very long'))
        ctx.trans(len(ws) * len(ws[0]))
    ctx.sample(dict(d=d, N=N, T=T))


def homogeneous(ctx, tier, d, N, T, mode):
    """The coordinates of the state in other units (powers of two, exact in floats)."""
    import jax
    import jax.numpy as jnp
    mis = graded_lexico(d, 2 * N - 1)
    M = np.array(mis).reshape(-1, d)
    ws = words(range(3), T)
    ys = jnp.array(hmm.encode(ws))
    fs = {st: jax.jit(jax.vmap(lambda p, i, y, st=st: run_filter(mode, st, 'multi-index', p, i, y, d, N), in_axes=(None, None, 0))) for st in (False, True)}
    powers = [[k] * d for k in (-40, -16, 16, 40)]
    if d > 1:
        powers += [[20, -20, 3][:d], [-12, 0, 12][:d]]
    for mod in models(d, N, mode)[:2]:
        tree = hmm.explore(mod, T, ctx, (d, N, 'units'))
        exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
        for pw in powers:
            D = 2. ** np.array(pw)
            DM = np.prod(D ** M, axis=1)
            par, ini = params(mod, d, N), initial(mod, mis)
            for k in ('atoms', 'mid', 'half'):
                par[k] = par[k] * D
            ini = dict(rms=ini['rms'] * DM, cms=ini['cms'] * DM, mean=ini['mean'] * D, scale=ini['scale'] * D, scms=ini['scms'])
            for st, f in fs.items():
                out = [np.asarray(o) for o in f(par, ini, ys)]
                if mode == 'raw':
                    out[0] = out[0] / DM
                else:
                    out[1] = out[1] / D
                    if mode == 'central':
                        out[0] = out[0] / DM
                    else:
                        out[2] = out[2] / D
                compare(ctx, mode, d, N, mod, out, exp, ws, 'units of measurement')
        for c in ([2. ** 14, -2. ** 10, 2. ** 13], [-2. ** 17, 2. ** 18, 2. ** 18]) if mode != 'raw' else ():
            c = np.array(c[:d])
            ini = initial(mod, mis)
            ini['mean'] = ini['mean'] + c
            for st, f in fs.items():
                out = [np.asarray(o) for o in f(dict(params(mod, d, N), origin=jnp.asarray(c)), ini, ys)]
                out[1] = out[1] - c
                # the state is known to the spacing of the numbers near c
                big = np.abs(c).max()
                compare(ctx, mode, d, N, mod, out, exp, ws, f'origin at {c.tolist()}', tol=1e3 * TOL[N] + 4 ** N * 1e-15 * big, tol_ll=1e3 * TOL[N] + 4 ** N * 1e-14 * big)
    ctx.sample(dict(d=d, N=N, powers_of_two=powers[-1]))


def many(ctx, tier, d, N, T, mode):
    """Many moments (more than 127): a transition that rotates and rescales the coordinates, and an uninformative likelihood, so that the moments are known."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims import moment_filter_nd_cms, moment_filter_nd_rms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    ref = graded_lexico(d, 2 * N - 1)
    M = np.array(ref).reshape(-1, d)
    # independent coordinates with densities (1 + b x) / 2 on [-1, 1]
    bs = [Fr(1, 3), Fr(-1, 2), Fr(1, 5)][:d]
    gain = [Fr(3, 4), Fr(-5, 4), Fr(1)][:d]

    def one(b, n):
        return Fr(1, n + 1) if n % 2 == 0 else b * Fr(1, n + 2)

    def stats(src, g):
        """Moments of (g_k x_{src_k})_k."""
        rt = [[one(bs[src[k]], n) * g[k] ** n for n in range(2 * N)] for k in range(d)]
        mu = [t[1] for t in rt]
        ct = [[sum(math.comb(n, j) * t[j] * (-m) ** (n - j) for j in range(n + 1)) for n in range(2 * N)] for t, m in zip(rt, mu)]
        sc = [math.sqrt(t[2]) for t in ct]
        pr = lambda tab: [math.prod(tab[k][m[k]] for k in range(d)) for m in ref]
        raw, cen = [np.array([float(v) for v in pr(t)]) for t in (rt, ct)]
        return raw, np.array([float(v) for v in mu]), cen, np.array(sc), cen / np.prod(np.array(sc) ** M, axis=1)

    src, g = list(range(d)), [Fr(1)] * d
    ini = list(map(jnp.asarray, stats(src, g)))
    exp = []
    for _ in range(T):
        src, g = src[1:] + src[:1], [gain[k] * v for k, v in enumerate(g[1:] + g[:1])]
        exp.append(stats(src, g))
    G = jnp.asarray(fl(gain))
    mis = generate_graded_lexico_multi_indices(d, 2 * N - 1)
    order = (mis, gram_and_hankel_indices_graded_lexico(N, d))
    nxt = lambda x: G * jnp.roll(x, -1, axis=-1)
    tab = jnp.asarray(M)
    pdf = lambda y, x: 0.25 * jnp.ones(x.shape[:-1])
    ys = jnp.zeros((T,))
    for sig, st in itertools.product(('multi-index', 'index'), (False, True)):
        sel = (lambda n: n) if sig == 'multi-index' else (lambda n: tab[n])
        rmt = lambda x, n: jnp.prod(nxt(x)[..., None, :] ** sel(n), axis=-1)
        cmt = lambda x, n, m: jnp.prod((nxt(x) - m)[..., None, :] ** sel(n), axis=-1)
        smt = lambda x, n, m, s: jnp.prod(((nxt(x) - m) / s)[..., None, :] ** sel(n), axis=-1)
        if mode == 'raw':
            f = lambda: moment_filter_nd_rms((rmt, sig), pdf, ys, order, ini[0], stable=st)
        elif mode == 'central':
            f = lambda: moment_filter_nd_cms((cmt, sig), nxt, pdf, ys, order, ini[2], ini[1], stable=st)
        else:
            f = lambda: moment_filter_nd_scms((smt, sig), lambda x: (nxt(x), 0. * x), pdf, ys, order, ini[4], ini[1], ini[3], stable=st)
        out = [np.asarray(o) for o in jax.jit(f)()]
        case = dict(d=d, N=N, mode=mode, signature=sig, stable=st)
        want = np.stack([e[{'raw': 0, 'central': 2, 'scaled': 4}[mode]] for e in exp])
        ctx.close('many moments: moments', out[0], want, 1e-6 * np.maximum(1., np.abs(want)), describe=lambda i: dict(case, time=i[0], multi_index=ref[i[1]]))
        if mode != 'raw':
            ctx.close('many moments: means', out[1], np.stack([e[1] for e in exp]), 1e-6, case=case)
        if mode == 'scaled':
            ctx.close('many moments: scales', out[2], np.stack([e[3] for e in exp]), 1e-6, case=case)
        ctx.close('many moments: negative log likelihood', out[-1], -T * math.log(0.25), 1e-6, case=case)
        ctx.state((d, N, mode, sig, st))
        ctx.trans(T)
        ctx.trace()
    ctx.sample(dict(d=d, N=N, moments=len(ref)))


def run_unit(ctx, tier, d, N, T, mode, stable, *flags):
    if stable == 'degenerate':
        return degenerate(ctx, tier, d, N, T, mode)
    if stable == 'homog':
        return homogeneous(ctx, tier, d, N, T, mode)
    if stable == 'many':
        return many(ctx, tier, d, N, T, mode)
    if stable == 'long':
        return long(ctx, tier, d, N, T, mode, *flags)
    return trees(ctx, tier, d, N, T, mode, stable)


def trees(ctx, tier, d, N, T, mode, stable):
    import jax
    import jax.numpy as jnp
    ms = models(d, N, mode)
    big = math.comb(N - 1 + d, d) ** d >= 500
    mis = graded_lexico(d, 2 * N - 1)
    ws = words(range(3), T)
    ini_of = {}
    exps = {}
    for mod in ms:
        r, mean, c, scale, sc = hmm.summary_nd(mod.atoms, mod.init, mis)
        ini_of[mod.name] = dict(rms=jnp.array(r), mean=jnp.array(mean), cms=jnp.array(c), scale=jnp.array(scale), scms=jnp.array(sc))
        tree = hmm.explore(mod, T, ctx, (d, N))
        exps[mod.name] = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}

    def stack(trees):
        return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *trees)

    pars = stack([params(m, d, N) for m in ms])
    inis = stack([ini_of[m.name] for m in ms])
    sigs = ['multi-index', 'index'] if not big else (['index'] if stable else ['multi-index'])
    for sig in sigs:
        f = jax.jit(jax.vmap(lambda p, i, y: run_filter(mode, stable, sig, p, i, y, d, N, jax_order=(sig == 'index')),
                             in_axes=(None, None, 0)))
        ys = jnp.array(hmm.encode(ws))
        if sig == 'index':
            ys = ys[..., None]  # vector-valued measurements
        for k, mod in enumerate(ms):
            take = jax.tree_util.tree_map(lambda v: v[k], (pars, inis))
            out = f(*take, ys)
            compare(ctx, mode, d, N, mod, [np.asarray(o) for o in out], exps[mod.name], ws, f'signature {sig}')
            ctx.outcomes.update(np.round(np.asarray(out[-1]), 8).tolist())
    if not big:
        # eager, one history, no measurement
        mod = ms[0]
        w = ws[len(ws) // 2]
        out = run_filter(mode, stable, 'multi-index', params(mod, d, N), ini_of[mod.name], jnp.array(w, dtype='int64'), d, N)
        compare(ctx, mode, d, N, mod, [np.asarray(o)[None] for o in out], exps[mod.name], [w], 'eager')
        out = run_filter(mode, stable, 'multi-index', params(mod, d, N), ini_of[mod.name], jnp.zeros((0,)), d, N)
        ctx.ok(out[0].shape == (0, len(mis)) and float(out[-1]) == 0., 'no measurement', None, (out[0].shape, out[-1]))
    w = ws[len(ws) // 2]
    ctx.sample(dict(model=ms[0].name, history=w, atoms=ms[0].atoms[:3], nll=-exps[ms[0].name][w][-1][1]))
