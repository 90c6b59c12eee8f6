"""C03: on continuous models the moment filters follow the Gauss-projection recursion, whatever representation is used."""
import itertools
import math

import mpmath as mp
import numpy as np

from mc import gauss, hmm
from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST, words

RULE = ('A state is the 60-digit moment vector that the recursion "Gauss rule - conditional moments - Gauss rule - Bayes rule" '
        'reaches after one observation history; transitions are observations. All histories over a 3-symbol alphabet up '
        'to the horizon are explored for every model, dimension, number of nodes and representation, and the filter is '
        'compared with the recursion after every observation.')
ASSUMPTIONS = [FLOAT_TRUST, 'smooth transition and measurement models with moderately conditioned moment matrices']


def cfg(tier):
    if tier == 'quick':
        return dict(one={1: 4, 2: 4, 3: 4, 4: 4, 5: 3, 6: 2, 7: 1}, nd={(1, 3): 3, (2, 1): 3, (2, 2): 3, (2, 3): 2, (3, 2): 2, (2, 4): 1})
    return dict(one={1: 6, 2: 6, 3: 6, 4: 5, 5: 5, 6: 4, 7: 3}, nd={(1, 3): 5, (2, 1): 5, (2, 2): 5, (2, 3): 4, (3, 2): 4, (2, 4): 2, (3, 3): 1})


def bounds(tier):
    c = cfg(tier)
    return dict(history_length_1d=c['one'], history_length_nd={str(k): v for k, v in c['nd'].items()}, alphabet=3,
                models_1d=len(MODELS), modes=['raw', 'central', 'scaled'])


# A model: drift mean f(x), transition variance q(x), likelihood g(y, x), mean and variance components of the initial mixture
MODELS = ['ar-logistic', 'sine-gauss', 'cubic-poisson', 'flat']


def units(tier):
    c = cfg(tier)
    us = []
    for N, T in c['one'].items():
        for k in range(len(MODELS)):
            us.append((f'1D N={N} {MODELS[k]}', ['one', 1, N, T, k], N * 3 ** T / 8. + 3))
    for (d, N), T in c['nd'].items():
        s = math.comb(N - 1 + d, d)
        for k in range(2):
            us.append((f'ND d={d} N={N} model {k}', ['nd', d, N, T, k], s ** d * 3 ** T / 30. + 5))
    us.append(('product models', ['product', 2, 2, 2 if tier == 'quick' else 3, 0], 12))
    return us


def run_unit(ctx, tier, kind, d, N, T, k):
    {'one': one_dim, 'nd': multi_dim, 'product': product}[kind](ctx, tier, d, N, T, k)


def model_1d(k, lib):
    """f, q, g, with the functions of `lib` (mpmath or jax.numpy)."""
    name = MODELS[k]
    exp, sin, log, tanh = lib.exp, lib.sin, lib.log, lib.tanh
    c = mp.mpf if lib is mp else float
    if name == 'ar-logistic':
        f = lambda x: c('0.9') * x + c('0.1')
        q = lambda x: c('0.04') + 0 * x
        g = lambda y, x: [1 / (1 + exp(-x)), 1 / (1 + exp(x)), c('0.5') / (1 + x * x)][y]
        init = [(c('0.5'), c('-0.5'), c('0.05')), (c('0.5'), c('0.5'), c('0.1'))]
    elif name == 'sine-gauss':
        f = lambda x: x + c('0.2') * sin(x) + c('0.05')
        q = lambda x: c('0.02') + c('0.01') * x * x
        g = lambda y, x: exp(-(x - [c('-0.6'), c('0.1'), c('0.9')][y]) ** 2 / c('0.8')) * c('0.75')
        init = [(c('0.25'), c('-0.75'), c('0.04')), (c('0.75'), c('0.25'), c('0.09'))]
    elif name == 'cubic-poisson':
        f = lambda x: x + c('0.1') * x * (1 - x * x)
        q = lambda x: c('0.05') + 0 * x
        g = lambda y, x: (log(1 + exp(2 * x)) ** y) * exp(-log(1 + exp(2 * x))) / [1, 1, 2][y]
        init = [(c('0.5'), c('-0.5'), c('0.05')), (c('0.5'), c('0.5'), c('0.05'))]
    else:  # uninformative and nearly uninformative measurements
        f = lambda x: c('0.8') * x + c('0.3') * tanh(x)
        q = lambda x: c('0.03') + c('0.02') * sin(x) ** 2
        g = lambda y, x: [c('2.5') + 0 * x, c('1e-20') * (2 + sin(x)), c('0.125') + 0 * x][y]
        init = [(c('0.5'), c('-0.25'), c('0.08')), (c('0.5'), c('0.625'), c('0.02'))]
    return f, q, g, init


def normal_raw(mean, var, K):
    ms = [mean * 0 + 1, mean]
    for n in range(2, K):
        ms.append(mean * ms[-1] + (n - 1) * var * ms[-2])
    return ms[:K]


def convert(rms):
    """raw -> (mean, central, scale, scaled), in mp."""
    K = len(rms)
    mean = rms[1]
    cms = [sum(mp.binomial(n, j) * rms[j] * (-mean) ** (n - j) for j in range(n + 1)) for n in range(K)]
    scale = mp.sqrt(cms[2]) if K > 2 else mp.mpf(0)
    return mean, cms, scale, [c / scale ** n for n, c in enumerate(cms)] if K > 2 else None


def ref_step_1d(rms, y, N, f, q, g):
    K = 2 * N
    xs, ws = gauss.gauss_1d(rms, N)
    pred = [mp.mpf(0)] * K
    for x, w in zip(xs, ws):
        for n, v in enumerate(normal_raw(f(x), q(x), K)):
            pred[n] += w * v
    xs, ws = gauss.gauss_1d(pred, N)
    gs = [w * g(y, x) for x, w in zip(xs, ws)]
    c = sum(gs)
    return [sum(gw * x ** n for gw, x in zip(gs, xs)) / c for n in range(K)], c


def one_dim(ctx, tier, d, N, T, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_cms, moment_filter_rms, moment_filter_scms
    K = 2 * N
    f, q, g, init = model_1d(k, mp)
    K0 = max(K, 3)
    r0 = [mp.mpf(0)] * K0
    for w, m, v in init:
        for n, u in enumerate(normal_raw(m, v, K0)):
            r0[n] += w * u
    mean0, c0, s0, sc0 = convert(r0)
    tree = {(): (r0[:K], mp.mpf(0))}
    frontier = [()]
    for _ in range(T):
        nxt = []
        for w in frontier:
            r, ll = tree[w]
            for y in range(3):
                r1, c = ref_step_1d(r, y, N, f, q, g)
                tree[w + (y,)] = (r1, ll + mp.log(c))
                ctx.state((N, k, w + (y,)))
                ctx.trans()
                nxt.append(w + (y,))
        frontier = nxt
    ws = words(range(3), T)
    # ---- the implementation
    fj, qj, gj, _ = model_1d(k, jnp)

    def all_raw(shift, x, scale=1.):
        return jnp.stack(normal_raw((fj(x) - shift) / scale, qj(x) / scale ** 2, K + 1), axis=-1)

    raw = lambda x, n: all_raw(0., x)[..., n]
    cen = lambda x, n, m: all_raw(m, x)[..., n]
    sca = lambda x, n, m, s: all_raw(m, x, s)[..., n]

    def pdf(y, x):
        y, one = hmm.decode(y)
        return one * jnp.where(y == 0, gj(0, x), jnp.where(y == 1, gj(1, x), gj(2, x)))

    rj, cj, scj = (jnp.array([float(v) for v in u[:K]]) for u in (r0, c0, sc0))
    ys = jnp.array(hmm.encode(ws))
    exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
    conv = {w: convert(tree[w][0]) for w in tree if w}
    arr = lambda fun: np.array([[fun(w[:t + 1]) for t in range(T)] for w in ws], dtype='float64')
    tol = 1e-11 if N <= 3 else 1e-10
    spread = 3.
    nn = np.arange(K)

    def desc(i):
        return dict(model=MODELS[k], N=N, history=ws[i[0]], time=int(i[1]) + 1 if len(i) > 1 else T)

    nll = np.array([-float(tree[w][1]) for w in ws])
    runs = {}
    for stable in (False, True):
        for mode in ('raw', 'central', 'scaled'):
            if mode == 'scaled' and N == 1:
                continue
            if mode == 'raw' and N > 6:
                continue
            lab = f'{mode} stable={stable}'
            if mode == 'raw':
                out = jax.jit(jax.vmap(lambda y: moment_filter_rms(raw, pdf, rj, y, stable)))(ys)
                ctx.close(f'{lab}: raw moments', out[0], arr(lambda w: [float(v) for v in tree[w][0]]), tol * spread ** nn, describe=desc)
            elif mode == 'central':
                out = jax.jit(jax.vmap(lambda y: moment_filter_cms(cen, lambda x: fj(x), pdf, cj, jnp.asarray(float(mean0)), y, stable)))(ys)
                ctx.close(f'{lab}: central moments', out[0], arr(lambda w: [float(v) for v in conv[w][1]]), tol * spread ** nn, describe=desc)
                ctx.close(f'{lab}: means', out[1], arr(lambda w: float(conv[w][0])), tol, describe=desc)
            else:
                out = jax.jit(jax.vmap(lambda y: moment_filter_scms(sca, lambda x: (fj(x), qj(x)), pdf, scj, jnp.asarray(float(mean0)),
                                                                    jnp.asarray(float(s0)), y, stable)))(ys)
                ctx.close(f'{lab}: scaled moments', out[0], arr(lambda w: [float(v) for v in conv[w][3]]), tol * (2 * spread) ** nn, describe=desc)
                ctx.close(f'{lab}: means', out[1], arr(lambda w: float(conv[w][0])), tol, describe=desc)
                ctx.close(f'{lab}: scales', out[2], arr(lambda w: float(conv[w][2])), tol, describe=desc)
            ctx.close(f'{lab}: negative log likelihood', out[-1], nll, 10 * tol, rtol=1e-13, describe=desc)
            ctx.trace(len(ws))
            runs[lab] = out
    ctx.outcomes.update(np.round(nll, 9).tolist())
    ctx.sample(dict(model=MODELS[k], N=N, history=ws[len(ws) // 2], nll=float(nll[len(ws) // 2])))


# ---- several dimensions ---------------------------------------------------------------------------------------------

def mvn_moments(mean, cov, mis, mul=None):
    """All raw moments of N(mean, cov) on a downward closed collection, by E[X^n] = m_i E[X^(n-e_i)] + sum_j C_ij (n-e_i)_j E[X^(n-e_i-e_j)].
    """
    d = len(mean)
    out = {}
    for n in sorted(mis, key=sum):
        if sum(n) == 0:
            out[n] = 1 + 0 * mean[0]
            continue
        i = next(a for a in range(d) if n[a])
        n1 = tuple(v - (a == i) for a, v in enumerate(n))
        t = mean[i] * out[n1]
        for j in range(d):
            if n1[j]:
                n2 = tuple(v - (a == j) for a, v in enumerate(n1))
                t = t + cov[i][j] * n1[j] * out[n2]
        out[n] = t
    return out


def model_nd(d, k, lib):
    c = mp.mpf if lib is mp else float
    A = [[c(str(round(0.85 - 0.1 * i, 3))) if i == j else c('0.1') * ((i + 2 * j) % 3 - 1) for j in range(d)] for i in range(d)]
    sin, exp = lib.sin, lib.exp

    def f(x):
        lin = [sum(A[i][j] * x[j] for j in range(d)) for i in range(d)]
        return [v + (c('0.1') * sin(x[(i + 1) % d]) if k else c('0.05') * (i + 1)) for i, v in enumerate(lin)]

    def q(x):
        base = [[c('0.06') + c('0.01') * i if i == j else c('0.01') for j in range(d)] for i in range(d)]
        if k:
            base[0][0] = base[0][0] + c('0.01') * x[d - 1] ** 2
        return base

    def g(y, x):
        z = x[0] + (c('0.5') * x[1] if d > 1 else 0) - (c('0.25') * x[2] if d > 2 else 0)
        return [1 / (1 + exp(-z)), exp(-(z - c('0.5')) ** 2 / 2), c('1.5') + 0 * z][y]

    init = [(c('0.375'), [c('-0.3') + c('0.2') * i for i in range(d)], c('0.1')), (c('0.625'), [c('0.4') - c('0.25') * i for i in range(d)], c('0.06'))]
    return f, q, g, init


def convert_nd(r, mis, d):
    unit = [tuple(int(a == i) for a in range(d)) for i in range(d)]
    mean = [r[u] for u in unit]
    cms = {}
    for n in mis:
        t = mp.mpf(0)
        for j in itertools.product(*[range(v + 1) for v in n]):
            co = mp.mpf(1)
            for a in range(d):
                co *= mp.binomial(n[a], j[a]) * (-mean[a]) ** (n[a] - j[a])
            t += co * r[j]
        cms[n] = t
    two = [tuple(2 * v for v in u) for u in unit]
    scale = [mp.sqrt(cms[t]) if t in cms else mp.mpf(1) for t in two]
    scms = {n: cms[n] / mp.fprod(scale[a] ** n[a] for a in range(d)) for n in mis}
    return mean, cms, scale, scms


def ref_step_nd(r, y, d, N, mis, f, q, g):
    pred = {n: mp.mpf(0) for n in mis}
    for x, w in gauss.gauss_nd(r, d, N):
        mm = mvn_moments(f(x), q(x), mis)
        for n in mis:
            pred[n] += w * mm[n]
    post = {n: mp.mpf(0) for n in mis}
    c = mp.mpf(0)
    for x, w in gauss.gauss_nd(pred, d, N):
        gw = w * g(y, x)
        c += gw
        for n in mis:
            t = gw
            for a in range(d):
                t *= x[a] ** n[a]
            post[n] += t
    return {n: v / c for n, v in post.items()}, c


def multi_dim(ctx, tier, d, N, T, k):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims import moment_filter_nd_cms, moment_filter_nd_rms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    old = mp.mp.dps
    mp.mp.dps = 40
    mis = graded_lexico(d, 2 * N - 1)
    f, q, g, init = model_nd(d, k, mp)
    big = graded_lexico(d, max(2 * N - 1, 2))
    r0 = {n: mp.mpf(0) for n in big}
    for w, m, v in init:
        mm = mvn_moments(m, [[v if i == j else mp.mpf(0) for j in range(d)] for i in range(d)], big)
        for n in big:
            r0[n] += w * mm[n]
    mean0, c0, s0, sc0 = convert_nd(r0, big, d)
    tree = {(): (r0, mp.mpf(0))}
    frontier = [()]
    for _ in range(T):
        nxt = []
        for w in frontier:
            for y in range(3):
                r1, c = ref_step_nd(tree[w][0], y, d, N, mis, f, q, g)
                tree[w + (y,)] = (r1, tree[w][1] + mp.log(c))
                ctx.state((d, N, k, w + (y,)))
                ctx.trans()
                nxt.append(w + (y,))
        frontier = nxt
    conv = {w: convert_nd(tree[w][0], mis, d) for w in tree if w}
    mp.mp.dps = old
    ws = words(range(3), T)
    fj, qj, gj, _ = model_nd(d, k, jnp)
    mia = jnp.asarray(np.array(mis).reshape(-1, d))

    def all_moments(x, mean, scale):
        mj = [(v - mean[i]) / scale[i] for i, v in enumerate(fj(x))]
        qq = qj(x)
        qq = [[qq[i][j] / (scale[i] * scale[j]) for j in range(d)] for i in range(d)]
        mm = mvn_moments(mj, qq, mis)
        return jnp.stack([mm[n] * 1. for n in mis])

    one, zero = jnp.ones((d,)), jnp.zeros((d,))

    def sel(v, n):
        if n.ndim == 2:  # multi-indices
            return v[..., jnp.argmax(jnp.all(n[:, None, :] == mia[None], axis=-1), axis=1)]
        return v[..., n]

    va = lambda x, m, s: jax.vmap(lambda u: all_moments(u, m, s))(x)
    raw = lambda x, n: sel(va(x, zero, one), n)
    cen = lambda x, n, m: sel(va(x, m, one), n)
    sca = lambda x, n, m, s: sel(va(x, m, s), n)
    cmean = jax.vmap(lambda x: jnp.stack(fj(x)))
    cmv = jax.vmap(lambda x: (jnp.stack(fj(x)), jnp.stack([qj(x)[i][i] + 0. * x[0] for i in range(d)])))

    def pdf(y, x):
        y, one = hmm.decode(y)
        return one * jnp.where(y == 0, gj(0, x), jnp.where(y == 1, gj(1, x), gj(2, x)))

    order = (generate_graded_lexico_multi_indices(d, 2 * N - 1), gram_and_hankel_indices_graded_lexico(N, d))
    vec = lambda m: jnp.array([float(m[n]) for n in mis])
    fm = lambda v: jnp.array([float(u) for u in v])
    ys = jnp.array(hmm.encode(ws))
    arr = lambda fun: np.array([[fun(w[:t + 1]) for t in range(T)] for w in ws], dtype='float64')
    tol = {1: 1e-11, 2: 1e-10, 3: 1e-10, 4: 1e-9}[N]
    deg = np.array([sum(n) for n in mis])
    nll = np.array([-float(tree[w][1]) for w in ws])

    def desc(i):
        return dict(model=k, d=d, N=N, history=ws[i[0]], time=int(i[1]) + 1 if len(i) > 1 else T)

    for stable in (False, True):
        for sig in (('multi-index', 'index') if not stable else ('index',)):
            for mode in ('raw', 'central', 'scaled'):
                if mode == 'scaled' and N == 1:
                    continue
                lab = f'{mode} {sig} stable={stable}'
                if mode == 'raw':
                    out = jax.jit(jax.vmap(lambda y: moment_filter_nd_rms((raw, sig), pdf, y, order, vec(r0), stable)))(ys)
                    ctx.close(f'{lab}: raw moments', out[0], arr(lambda w: [float(tree[w][0][n]) for n in mis]), tol * 2. ** deg, describe=desc)
                elif mode == 'central':
                    out = jax.jit(jax.vmap(lambda y: moment_filter_nd_cms((cen, sig), cmean, pdf, y, order, vec(c0), fm(mean0), stable)))(ys)
                    ctx.close(f'{lab}: central moments', out[0], arr(lambda w: [float(conv[w][1][n]) for n in mis]), tol * 2. ** deg, describe=desc)
                    ctx.close(f'{lab}: means', out[1], arr(lambda w: [float(v) for v in conv[w][0]]), tol, describe=desc)
                else:
                    out = jax.jit(jax.vmap(lambda y: moment_filter_nd_scms((sca, sig), cmv, pdf, y, order, vec(sc0), fm(mean0), fm(s0), stable)))(ys)
                    ctx.close(f'{lab}: scaled moments', out[0], arr(lambda w: [float(conv[w][3][n]) for n in mis]), tol * 5. ** deg, describe=desc)
                    ctx.close(f'{lab}: means', out[1], arr(lambda w: [float(v) for v in conv[w][0]]), tol, describe=desc)
                    ctx.close(f'{lab}: scales', out[2], arr(lambda w: [float(v) for v in conv[w][2]]), tol, describe=desc)
                ctx.close(f'{lab}: negative log likelihood', out[-1], nll, 10 * tol, rtol=1e-13, describe=desc)
                ctx.trace(len(ws))
    ctx.outcomes.update(np.round(nll, 8).tolist())
    ctx.sample(dict(d=d, N=N, history=ws[len(ws) // 2], nll=float(nll[len(ws) // 2])))


def product(ctx, tier, d, N, T, k):
    """Independent coordinates measured by a function of the first one only: the first marginal of the multidimensional
    filter is the 1D filter, and the second marginal follows the 1D prediction (up to the moments a total-degree
    collection resolves: N = 2 resolves means, variances and all marginal moments of linear models)."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims import moment_filter_nd_rms
    from mfs.multi_dims.moments import marginalise_moments
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    from mfs.one_dim.filtering import moment_filter_rms
    for dd, N in ((1, 2), (1, 3), (1, 4), (2, 2)):
        K = 2 * N
        mis = generate_graded_lexico_multi_indices(dd, K - 1)
        order = (mis, gram_and_hankel_indices_graded_lexico(N, dd))
        a, q = 0.9, 0.05
        ini = [(0.5, -0.4, 0.06), (0.5, 0.5, 0.1)]
        r1 = jnp.array([sum(w * normal_raw(m, v, K)[n] for w, m, v in ini) for n in range(K)])
        raw1 = lambda x, n: jnp.stack(normal_raw(a * x, q + 0 * x, K + 1), -1)[..., n]
        pdf1 = lambda y, x: hmm.decode(y)[1] * jnp.where(hmm.decode(y)[0] == 0, 1 / (1 + jnp.exp(-x)), jnp.where(hmm.decode(y)[0] == 1, 1 / (1 + jnp.exp(x)), 0.7))
        r0 = jnp.array([float(np.prod([float(r1[int(n)]) for n in mi])) for mi in mis])

        def rawn(x, n):
            tabs = jnp.stack([jnp.stack(normal_raw(a * x[:, i], q + 0 * x[:, i], K + 1), -1) for i in range(dd)], 1)
            return jnp.stack([jnp.prod(jnp.stack([tabs[:, i, int(mi[i])] for i in range(dd)]), axis=0) for mi in mis], -1)[:, n]

        pdfn = lambda y, x: pdf1(y, x[0])
        ws = words(range(3), T + (2 if dd == 1 else 1))
        ys = jnp.array(hmm.encode(ws))
        o1 = jax.jit(jax.vmap(lambda y: moment_filter_rms(raw1, pdf1, r1, y)))(ys)
        on = jax.jit(jax.vmap(lambda y: moment_filter_nd_rms((rawn, 'index'), pdfn, y, order, r0)))(ys)
        first = marginalise_moments(np.asarray(on[0]), dd, N, 0)
        case = dict(d=dd, N=N)
        ctx.close('marginal of the multidimensional filter', first, np.asarray(o1[0]), 1e-9 * 2. ** np.arange(K), case=case)
        ctx.close('likelihood of the multidimensional filter', on[1], o1[1], 1e-9, case=case)
        for w in ws:
            ctx.state((dd, N, w))
        ctx.trans(len(ws) * len(ws[0]))
        ctx.trace(2 * len(ws))
    ctx.sample(dict(T=T))
