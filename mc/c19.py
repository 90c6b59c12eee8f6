"""C19: density approximations and transforms, against exact expansions of enumerated laws."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.c08 import exact_cumulants
from mc.c09 import normal_raw
from mc.common import FLOAT_TRUST

RULE = ('A state is one (law, order, representation) and a transition is one transformation (moments to cumulants, to a density, to a characteristic '
        'function and back). All two- and three-atom laws of a rational grid, Normal and Normal-mixture laws, all orders up to the bound and '
        'all points of a grid are enumerated; the oracle is the expansion in exact rational arithmetic, and its defining property: '
        'an expansion of order n reproduces the moments up to order n.')
ASSUMPTIONS = [FLOAT_TRUST, 'saddle points: points where the nearest real root is ambiguous to rounding, or the formula has no real value, are excluded']


def cfg(tier):
    if tier == 'quick':
        return dict(gc=[2, 3, 4, 5, 6, 7, 9], leg=range(1, 13), saddle=[3, 4, 5, 6, 7, 8, 10], cgf=range(1, 12), cf=[1, 2, 3, 4])
    return dict(gc=[2, 3, 4, 5, 6, 7, 8, 9, 10, 11], leg=range(1, 19), saddle=range(3, 15), cgf=range(1, 18), cf=[1, 2, 3, 4, 5, 6])


def bounds(tier):
    c = cfg(tier)
    return dict(laws=len(laws()), gram_charlier_orders=c['gc'], legendre_lengths=list(c['leg']), saddle_lengths=list(c['saddle']), cgf_lengths=list(c['cgf']),
                characteristic_nodes=c['cf'])


def laws():
    """Atoms ((value, weight), ...) and mixtures ('normal', ((mean, var, weight), ...))."""
    h = Fr(1, 2)
    out = [('atoms', ((Fr(-1), h), (Fr(1), h))),
           ('atoms', ((Fr(0), Fr(1, 4)), (Fr(3, 2), Fr(3, 4)))),
           ('atoms', ((Fr(-2), Fr(1, 5)), (Fr(1, 4), Fr(3, 5)), (Fr(1), Fr(1, 5)))),
           ('atoms', ((Fr(1), Fr(1, 3)), (Fr(2), Fr(1, 3)), (Fr(4), Fr(1, 3)))),
           ('atoms', ((Fr(-3), Fr(1, 8)), (Fr(-1), Fr(3, 8)), (h, Fr(1, 4)), (Fr(2), Fr(1, 4)))),
           ('normal', ((Fr(0), Fr(1), Fr(1)),)),
           ('normal', ((Fr(3, 2), Fr(1, 4), Fr(1)),)),
           ('normal', ((Fr(-7, 10), Fr(4), Fr(1)),)),
           ('normal', ((Fr(-1), Fr(1, 4), Fr(2, 5)), (Fr(1), Fr(16, 25), Fr(3, 5)))),
           ('normal', ((Fr(2), Fr(1), Fr(9, 10)), (Fr(0), Fr(9), Fr(1, 10))))]
    return out


def raw(law, K, shift=Fr(0)):
    kind, parts = law
    if kind == 'atoms':
        return [sum(w * (x - shift) ** n for x, w in parts) for n in range(K)]
    t = [normal_raw(m - shift, v, K) for m, v, _ in parts]
    return [sum(w * a[n] for a, (_, _, w) in zip(t, parts)) for n in range(K)]


def mpf(x):
    return mp.mpf(x.numerator) / x.denominator


def mean_var(law):
    r = raw(law, 3)
    return r[1], r[2] - r[1] ** 2


def units(tier):
    c = cfg(tier)
    us = []
    for n in c['gc']:
        us.append((f'gram-charlier order {n}', ['gc', n], 2 + 1.6 ** n))
    us.append(('legendre', ['leg', 0], 12))
    for n in c['saddle']:
        us.append((f'saddle point length {n}', ['saddle', n], 5))
    us.append(('cumulant generating function', ['cgf', 0], 8))
    us.append(('characteristic functions', ['cf', 0], 10))
    us.append(('fourier', ['fourier', 0], 8))
    us.append(('units of measurement', ['resc', 0], 15))
    return us


def run_unit(ctx, tier, what, n):
    {'gc': gram, 'leg': legendre, 'saddle': saddle, 'cgf': cgf, 'cf': cf, 'fourier': fourier, 'resc': rescaled}[what](ctx, tier, n)


def hermite_coeffs(n):
    a, b = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fr(0)] + b
        for i, v in enumerate(a):
            c[i] -= k * v
        a, b = b, c
    return b


def gram(ctx, tier, order):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import gram_charlier
    from mfs.one_dim.moments import sms_to_cumulants
    nodes, wts = np.polynomial.hermite_e.hermegauss(order + 8)
    wts = wts / wts.sum()

    def chained(s, m, sc, x):
        return gram_charlier(sms_to_cumulants(s, m, sc))(x)

    fn = jax.jit(lambda c, x: gram_charlier(c)(x))
    for law in laws():
        K = order + 1
        m, v = mean_var(law)
        cms = raw(law, K, m)
        kum = exact_cumulants(raw(law, K))[1:K] if len(exact_cumulants(raw(law, K))) == K else exact_cumulants(raw(law, K))
        kum = list(kum)
        assert len(kum) == order and kum[0] == m and (order < 2 or kum[1] == v)
        sd = mp.sqrt(mpf(v))
        # coefficients E[He_j((X - m)/sd)] / j!
        coef = []
        for j in range(order + 1):
            hc = hermite_coeffs(j)
            coef.append(mp.fsum(mpf(a) * mpf(cms[i]) / sd ** i for i, a in enumerate(hc) if a) / math.factorial(j))
        case = dict(law=law, order=order)
        zs = [Fr(k, 2) for k in range(-8, 9)] + [Fr(1, 3)] + [Fr(s * k) for k in (6, 9, 14, 20) for s in (1, -1)]
        want, size = [], []
        for z in zs:
            hv = [mp.fsum(mpf(a) * mpf(z) ** i for i, a in enumerate(hermite_coeffs(j)) if a) for j in range(order + 1)]
            ha = [mp.fsum(abs(mpf(a)) * abs(mpf(z)) ** i for i, a in enumerate(hermite_coeffs(j)) if a) for j in range(order + 1)]
            base = mp.exp(-mpf(z) ** 2 / 2) / sd / mp.sqrt(2 * mp.pi)
            want.append(float(base * mp.fsum(a * b for a, b in zip(coef, hv))))
            size.append(float(base * (1 + mp.fsum((abs(a) + 1) * b for a, b in zip(coef, ha)))))
        xs = jnp.asarray([float(mpf(m) + sd * mpf(z)) for z in zs])
        cum = jnp.asarray([float(k) for k in kum])
        ctx.close('Gram-Charlier density', fn(cum, xs), np.array(want), 1e-12 * np.array(size), case=case)
        if law == laws()[-1] or order <= 5:
            ctx.close('Gram-Charlier density (eager)', gram_charlier(cum)(xs), np.array(want), 1e-12 * np.array(size), case=case)
        sms = jnp.asarray([float(mpf(c) / sd ** i) for i, c in enumerate(cms)])
        if order <= 6:
            ctx.close('Gram-Charlier density from scaled moments', chained(sms, float(m), float(sd), xs), np.array(want), 1e-10 * np.array(size), case=case)
        # moments of the expansion
        x = float(m) + float(sd) * nodes
        ratio = np.asarray(fn(cum, jnp.asarray(x))) * float(sd) * np.sqrt(2 * np.pi) * np.exp(nodes ** 2 / 2)
        for k in range(order + 1):
            sz = float(np.sum(wts * np.abs(ratio) * np.abs(nodes) ** k)) + 1
            ctx.close('moment of the Gram-Charlier density', float(np.sum(wts * ratio * nodes ** k)), float(mpf(cms[k]) / sd ** k), 1e-8 * sz, case=dict(case, moment=k))
            ctx.trans()
        if law[0] == 'normal' and len(law[1]) == 1:
            ctx.close('Gram-Charlier density of a Normal law', fn(cum, xs), np.array([float(mp.exp(-mpf(z) ** 2 / 2) / sd / mp.sqrt(2 * mp.pi)) for z in zs]), 1e-11 * np.array(size), case=case)
        ctx.state((law, order))
        ctx.trace(len(zs))
    ctx.sample(dict(law=laws()[3], order=order))


def legendre_coeffs(n):
    a, b = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fr(0)] + [Fr(2 * k + 1, k + 1) * v for v in b]
        for i, v in enumerate(a):
            c[i] -= Fr(k, k + 1) * v
        a, b = b, c
    return b


def legendre(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import legendre_poly_expansion
    ivs = [(Fr(-1), Fr(1)), (Fr(0), Fr(1)), (Fr(-3), Fr(1, 2)), (Fr(2), Fr(5)), (Fr(-1, 4), Fr(1, 4))]
    fn = jax.jit(lambda r, a, b, x: legendre_poly_expansion(r, a, b)(x))
    dflt = jax.jit(lambda r, x: legendre_poly_expansion(r)(x))
    unit_laws = [((Fr(1, 4), Fr(1, 3)), (Fr(1, 2), Fr(2, 3))), ((Fr(0), Fr(1, 5)), (Fr(2, 3), Fr(4, 5))), ((Fr(1, 8), Fr(1, 2)), (Fr(5, 8), Fr(1, 4)), (Fr(1), Fr(1, 4)))]
    for K in cfg(tier)['leg']:
        for (a, b), law in itertools.product(ivs, unit_laws):
            law = ('atoms', tuple((a + (b - a) * u, w) for u, w in law))
            rms = raw(law, K)
            ts = [Fr(k, 10) for k in range(-10, 11, 2)] + [Fr(1, 3)]
            std = [sum(w * ((2 * x - a - b) / (b - a)) ** n for x, w in law[1]) for n in range(K)]
            coef = [Fr(2 * k + 1, 2) * sum(c * std[i] for i, c in enumerate(legendre_coeffs(k))) for k in range(K)]
            want = [float(2 / (b - a) * sum(coef[k] * sum(c * t ** i for i, c in enumerate(legendre_coeffs(k))) for k in range(K))) for t in ts]
            # sizes of the terms: of the moments of the standardised law, of the coefficients, of the polynomials
            mass = [sum(math.comb(n, j) * abs(a + b) ** (n - j) * 2 ** j * abs(rms[j]) for j in range(n + 1)) / (b - a) ** n for n in range(K)]
            big = [Fr(2 * k + 1, 2) * sum(abs(c) * mass[i] for i, c in enumerate(legendre_coeffs(k))) for k in range(K)]
            cond = (abs(a + b) + 2 * max(abs(a), abs(b))) / (b - a)
            size = []
            for t in ts:
                tot = Fr(0)
                for k in range(K):
                    lc = legendre_coeffs(k)
                    tot += big[k] * abs(sum(c * t ** i for i, c in enumerate(lc))) + abs(coef[k]) * sum(abs(c) * (abs(t) ** i + i * cond * abs(t) ** max(i - 1, 0)) for i, c in enumerate(lc))
                size.append(float(2 / (b - a) * tot))
            size = np.array(size)
            top = float(np.max(size))
            xs = jnp.asarray([float((a + b) / 2 + (b - a) / 2 * t) for t in ts])
            r = jnp.asarray([float(v) for v in rms])
            case = dict(law=law, interval=(a, b), length=K)
            ctx.close('Legendre density', fn(r, float(a), float(b), xs), np.array(want), 1e-13 * size + 1e-12, case=case)
            if (a, b) == (-1, 1):
                ctx.close('Legendre density (default interval)', dflt(r, xs), np.array(want), 1e-13 * size + 1e-12, case=case)
            if K in (1, 2, 5):
                ctx.close('Legendre density (eager)', legendre_poly_expansion(r, float(a), float(b))(xs), np.array(want), 1e-13 * size + 1e-12, case=case)
            if top < 1e6:
                nd, wt = np.polynomial.legendre.leggauss(K + 2)
                x = float((a + b) / 2) + float((b - a) / 2) * nd
                p = np.asarray(fn(r, float(a), float(b), jnp.asarray(np.concatenate([x, np.zeros(max(0, 12 - len(x)))]))))[:len(x)]
                for k in range(K):
                    ctx.close('moment of the Legendre density', float(np.sum(wt * p * x ** k)) * float((b - a) / 2), float(rms[k]),
                              (1e-12 * top + 1e-11) * float(max(abs(a), abs(b), 1)) ** k, case=dict(case, moment=k))
                    ctx.trans()
            ctx.state((law, K))
            ctx.trace(len(ts))
    ctx.sample(case)


def near_critical(coef, d1, d2, m, scale, sd):
    """Points where two saddle points have just left the real axis (with small imaginary parts), so that another one has to be used."""
    mul = lambda a, b: [mp.fsum(a[i] * b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)) for k in range(len(a) + len(b) - 1)]
    p, q = mul(coef, d2), mul(d1, d1)
    n = max(len(p), len(q))
    p = [a - b for a, b in zip(p + [mp.mpf(0)] * (n - len(p)), q + [mp.mpf(0)] * (n - len(q)))]
    while p and abs(p[-1]) < 1e-12:
        p.pop()
    if len(p) < 2:
        return []
    try:
        roots = mp.polyroots(p[::-1], maxsteps=500, extraprec=200)
    except mp.libmp.NoConvergence:
        return []
    out = []
    for t in roots:
        if abs(mp.im(t)) > 1e-25:
            continue
        t = mp.re(t)
        Mt = mp.polyval(coef[::-1], t)
        if Mt < 1e-3:
            continue
        x = m + scale * mp.polyval(d1[::-1], t) / Mt
        if abs(x - m) < 6 * sd:
            out += [mp.mpf(float(x + sign * sd * delta)) for delta in (1e-5, 1e-8) for sign in (1, -1)]
    return out


def saddle(ctx, tier, K):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import saddle_point
    fn = jax.jit(lambda s, m, sc, x: saddle_point(s, m, sc)(x))
    used = 0
    for law in laws():
        m, v = mean_var(law)
        sd = mp.sqrt(mpf(v))
        for scale_mode in ('sd', 'one', 'half'):
            scale = {'sd': sd, 'one': mp.mpf(1), 'half': mp.mpf(1) / 2}[scale_mode]
            cms = raw(law, K, m)
            sms = [mpf(c) / scale ** i for i, c in enumerate(cms)]
            coef = [s / math.factorial(i) for i, s in enumerate(sms)]  # ascending, M(t) with t = scale z
            if abs(coef[-1]) < 1e-12:
                continue
            zs = [Fr(k, 2) for k in range(-5, 6)] + [Fr(1, 3)]
            xs = [mpf(m) + sd * mpf(z) for z in zs]
            d1 = [coef[i] * i for i in range(1, K)]
            d2 = [d1[i] * i for i in range(1, len(d1))] or [mp.mpf(0)]
            near = near_critical(coef, d1, d2, mpf(m), scale, sd)
            zs, xs = zs + [float((x - mpf(m)) / sd) for x in near], xs + near
            got = np.asarray(fn(jnp.asarray([float(s) for s in sms]), float(m), float(scale), jnp.asarray([float(x) for x in xs])))
            eager = got
            if K <= 5 and scale_mode == 'sd':
                eager = np.asarray(saddle_point(jnp.asarray([float(s) for s in sms]), float(m), float(scale))(jnp.asarray([float(x) for x in xs])))
            M = lambda t: mp.polyval(coef[::-1], t)
            for x, g, ge, z in zip(xs, got, eager, zs):
                # (mean - x) M(t) + scale M'(t) = 0
                eq = [(mpf(m) - x) * c for c in coef]
                for i, c in enumerate(d1):
                    eq[i] += scale * c
                while eq and abs(eq[-1]) < 1e-9:
                    eq.pop()
                if len(eq) < K and z != 0:
                    continue
                if len(eq) < 2:
                    continue
                try:
                    roots = mp.polyroots(eq[::-1], maxsteps=500, extraprec=200)
                except mp.libmp.NoConvergence:
                    continue
                if any(1e-20 < abs(mp.im(r)) < 1e-6 for r in roots):
                    continue
                real = sorted((mp.re(r) for r in roots if abs(mp.im(r)) < 1e-20), key=lambda r: abs(r - (x - mpf(m)) / scale))
                if not real:
                    continue
                gap = min(sorted(abs(a - real[0]) for a in roots)[1:] or [mp.mpf(1)])
                if gap < 1e-3 or (len(real) > 1 and abs(abs(real[0] - (x - mpf(m)) / scale) - abs(real[1] - (x - mpf(m)) / scale)) < 1e-4):
                    continue
                t = real[0]
                Mt, M1, M2 = M(t), mp.polyval(d1[::-1], t), mp.polyval(d2[::-1], t)
                if Mt <= 1e-6:
                    continue
                kk = scale ** 2 * (M2 / Mt - (M1 / Mt) ** 2)
                if abs(kk) < 1e-6:
                    continue
                case = dict(law=law, length=K, scale=scale_mode, x=float(x))
                if kk < 0:
                    ctx.ok(np.isnan(g), 'a density where the formula has no real value', case, g)
                    continue
                want = mp.exp(t / scale * mpf(m) + mp.log(Mt) - t / scale * x) / mp.sqrt(2 * mp.pi * kk)
                ctx.close('saddle-point density', [g, ge], [float(want)] * 2, 1e-9 + 1e-9 / float(gap), rtol=1e-6, case=case)
                used += 1
                ctx.state((law, K, scale_mode, z))
                ctx.trans()
                ctx.trace()
    ctx.ok(used > 50, 'the oracle applies at too few points (machinery)', K, used)
    ctx.sample(dict(law=laws()[2], length=K))


def real_roots(coef):
    while len(coef) and abs(coef[-1]) < 1e-12:
        coef = coef[:-1]
    if len(coef) < 2:
        return []
    try:
        return sorted(mp.re(r) for r in mp.polyroots(coef[::-1], maxsteps=500, extraprec=200) if abs(mp.im(r)) < 1e-25 and abs(r) < 50)
    except mp.libmp.NoConvergence:
        return []


def cgf(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import truncated_cumulant_generating_function as f
    base = [Fr(k, 4) for k in range(-4, 5)]
    raw_f, cen_f, sca_f = (jax.jit(jax.vmap(g, in_axes=[0] + [None] * k)) for k, g in ((1, lambda z, r: f(z, r)), (2, lambda z, r, m: f(z, r, m)), (3, lambda z, r, m, s: f(z, r, m, s))))
    for law in laws():
        m, v = mean_var(law)
        sd = mp.sqrt(mpf(v))
        for K in cfg(tier)['cgf']:
            for form in ('raw', 'central', 'scaled', 'raw scaled'):
                if form == 'raw':
                    ms, mm, sc = [mpf(r) for r in raw(law, K)], mp.mpf(0), mp.mpf(1)
                elif form == 'central':
                    ms, mm, sc = [mpf(r) for r in raw(law, K, m)], mpf(m), mp.mpf(1)
                elif form == 'scaled':
                    ms, mm, sc = [mpf(r) / sd ** i for i, r in enumerate(raw(law, K, m))], mpf(m), sd
                else:
                    ms, mm, sc = [mpf(r) / sd ** i for i, r in enumerate(raw(law, K))], mp.mpf(0), sd
                # also points close to the zeros of the truncated moment generating function, where the logarithm is large
                zs = base + [Fr(float(r + e)) for r in real_roots([ms[n] * sc ** n / math.factorial(n) for n in range(K)]) for e in (1e-4, -1e-4, 1e-7, -1e-7)][:16]
                zs += [Fr(9)] * (25 - len(zs))
                za = jnp.asarray([float(z) for z in zs])
                vals = [mp.fsum((mpf(z) * sc) ** n / math.factorial(n) * ms[n] for n in range(K)) for z in zs]
                mass = np.array([float(mp.fsum(abs((mpf(z) * sc) ** n / math.factorial(n) * ms[n]) for n in range(K))) for z in zs])
                keep = np.array([x > 1e-9 for x in vals])
                want = np.array([float(mpf(z) * mm + mp.log(x)) if x > 1e-9 else np.nan for z, x in zip(zs, vals)])
                ctol = 1e-10 + 1e-13 * mass / np.maximum(np.array([float(x) for x in vals]), 1e-9)
                arr = jnp.asarray([float(x) for x in ms])
                case = dict(law=law, length=K, form=form)
                if form == 'raw':
                    got = raw_f(za, arr)
                elif form == 'central':
                    got = cen_f(za, arr, float(mm))
                else:
                    got = sca_f(za, arr, float(mm), float(sc))
                ctx.close('truncated cumulant generating function', np.asarray(got)[keep], want[keep], ctol[keep], rtol=1e-10, case=case)
                if K in (1, 4):
                    g = f(za[2], arr, mean=float(mm), scale=float(sc))
                    if keep[2]:
                        ctx.close('truncated cumulant generating function (eager)', g, want[2], 1e-10, rtol=1e-10, case=case)
                ctx.state((law, K, form))
                ctx.trans(len(zs))
                ctx.trace(len(zs))
    ctx.sample(case)


def cf(ctx, tier, _):
    """2 n moments of a law with n atoms determine it: the characteristic function is exact."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import characteristic_fn, characteristic_from_pdf
    zs = [Fr(k, 2) for k in range(-6, 7)]
    za = jnp.asarray([float(z) for z in zs])
    f1 = jax.jit(jax.vmap(lambda z, r: characteristic_fn(z, r), in_axes=[0, None]))
    f2 = jax.jit(jax.vmap(lambda z, r, m: characteristic_fn(z, r, m), in_axes=[0, None, None]))
    f3 = jax.jit(jax.vmap(lambda z, r, m, s: characteristic_fn(z, r, m, s), in_axes=[0, None, None, None]))
    grid = [Fr(-2), Fr(-1, 2), Fr(1, 4), Fr(1), Fr(3), Fr(7, 2)]
    wts = {1: [(1,)], 2: [(1, 1), (1, 3)], 3: [(1, 1, 2), (2, 1, 1)], 4: [(1, 2, 2, 1)], 5: [(1, 2, 3, 2, 1)], 6: [(1, 1, 2, 2, 1, 1)]}
    for n in cfg(tier)['cf']:
        for atoms in itertools.combinations(grid, n):
            for w in wts[n]:
                tot = sum(w)
                law = ('atoms', tuple((x, Fr(a, tot)) for x, a in zip(atoms, w)))
                want = np.array([complex(mp.fsum(mpf(p) * mp.expj(mpf(z) * mpf(x)) for x, p in law[1])) for z in zs])
                m, v = mean_var(law)
                case = dict(law=law)
                sd = mp.sqrt(mpf(v)) if v else mp.mpf(1)
                tol = {1: 1e-12, 2: 1e-9, 3: 1e-6, 4: 1e-5, 5: 1e-3, 6: 1e-2}[n]
                ctx.close('characteristic function (raw)', f1(za, jnp.asarray([float(r) for r in raw(law, 2 * n)])), want, tol, case=case)
                ctx.close('characteristic function (central)', f2(za, jnp.asarray([float(r) for r in raw(law, 2 * n, m)]), float(m)), want, tol, case=case)
                ctx.close('characteristic function (scaled)', f3(za, jnp.asarray([float(mpf(r) / sd ** i) for i, r in enumerate(raw(law, 2 * n, m))]), float(m), float(sd)), want, tol, case=case)
                ctx.state(law)
                ctx.trans(3)
                ctx.trace(3)
    # from tabulated densities: the trapezoidal rule, on even and uneven grids
    for n, even in itertools.product((2, 3, 10, 101), (True, False)):
        xs = np.linspace(-3, 3, n) if even else np.sort(np.sin(np.arange(n) * 1.3) * 3)
        for k in range(3):
            ps = np.abs(np.cos(np.arange(n) * (k + 1) * 0.7)) + 0.1 * k
            h = np.diff(xs)
            e = np.exp(1j * np.asarray(za)[:, None] * xs[None]) * ps[None]
            want = np.sum((e[:, 1:] + e[:, :-1]) / 2 * h, axis=1)
            got = jax.vmap(characteristic_from_pdf, in_axes=[0, None, None])(za, jnp.asarray(ps), jnp.asarray(xs))
            ctx.close('characteristic function of a tabulated density', got, want, 1e-11, case=dict(n=n, even=even, k=k))
            ctx.state((n, even, k))
            ctx.trans()
            ctx.trace()
    ctx.sample(case)


def fourier(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import inverse_fourier
    from mfs.one_dim.moments import characteristic_from_pdf
    inv = jax.jit(jax.vmap(inverse_fourier, in_axes=[0, None, None]))
    xs = np.linspace(-4, 4, 33)
    # definition, on arbitrary tables
    for n, even in itertools.product((2, 3, 17, 200), (True, False)):
        zs = np.linspace(-5, 7, n) if even else np.sort(np.sin(np.arange(n) * 1.3) * 5)
        for k in range(4):
            cfs = np.cos(np.arange(n) * 0.3 * (k + 1)) + 1j * np.sin(np.arange(n) * 0.7 * k + k)
            h = np.diff(zs)
            e = np.exp(-1j * xs[:, None] * zs[None]) * cfs[None]
            want = np.real(np.sum((e[:, 1:] + e[:, :-1]) / 2 * h, axis=1)) / (2 * np.pi)
            got = inv(jnp.asarray(xs), jnp.asarray(cfs), jnp.asarray(zs))
            ctx.ok(got.dtype == jnp.float64, 'the density is not real', dict(n=n), got.dtype)
            ctx.close('inverse Fourier transform', got, want, 1e-11, case=dict(n=n, even=even, k=k))
            ctx.state((n, even, k))
            ctx.trans()
            ctx.trace()
    # exactness on Normal mixtures, and the round trip density -> characteristic function -> density
    zs = np.linspace(-30, 30, 2001)
    grid = np.linspace(-14, 14, 3001)
    dens = lambda x, law: sum(float(w) * np.exp(-0.5 * (x - float(m)) ** 2 / float(v)) / np.sqrt(2 * np.pi * float(v)) for m, v, w in law[1])
    for law in [l for l in laws() if l[0] == 'normal']:
        cfs = sum(float(w) * np.exp(1j * zs * float(m) - 0.5 * float(v) * zs ** 2) for m, v, w in law[1])
        want = dens(xs, law)
        ctx.close('density of a mixture', inv(jnp.asarray(xs), jnp.asarray(cfs), jnp.asarray(zs)), want, 1e-10, case=dict(law=law))
        back = jax.jit(jax.vmap(characteristic_from_pdf, in_axes=[0, None, None]))(jnp.asarray(zs), jnp.asarray(dens(grid, law)), jnp.asarray(grid))
        ctx.close('characteristic function of a mixture', back, cfs, 2e-5, case=dict(law=law))
        ctx.close('round trip', inv(jnp.asarray(xs), back, jnp.asarray(zs)), want, 1e-4, case=dict(law=law))
        ctx.state(law)
        ctx.trans(3)
        ctx.trace(3)
    ctx.sample(dict(law=law))


def rescaled(ctx, tier, _):
    """Other units of measurement, powers of two: the approximations depend on the law only, so that densities are divided by the unit."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import characteristic_fn, characteristic_from_pdf
    from mfs.one_dim.pdf_approximations import gram_charlier, inverse_fourier, legendre_poly_expansion, saddle_point, truncated_cumulant_generating_function
    gc = jax.jit(lambda c, x: gram_charlier(c)(x))
    leg = jax.jit(lambda r, a, b, x: legendre_poly_expansion(r, a, b)(x))
    sp = jax.jit(lambda s, m, sc, x: saddle_point(s, m, sc)(x))
    cg = jax.jit(jax.vmap(truncated_cumulant_generating_function, in_axes=[0, None, None, None]))
    cfn = jax.jit(jax.vmap(characteristic_fn, in_axes=[0, None, None, None]))
    inv = jax.jit(jax.vmap(inverse_fourier, in_axes=[0, None, None]))
    cfp = jax.jit(jax.vmap(characteristic_from_pdf, in_axes=[0, None, None]))
    zs = np.array([k / 2 for k in range(-6, 7)] + [1 / 3])
    for law, K, k in itertools.product(laws(), (3, 4, 6), (-80, -40, -12, -3, 3, 12, 40, 80)):
        u = 2. ** k
        m, v = mean_var(law)
        m, sd = float(m), math.sqrt(v)
        x = m + sd * zs
        case = dict(law=law, length=K, power_of_two=k)
        pw = u ** np.arange(K)
        kum = np.array([float(c) for c in exact_cumulants(raw(law, K))[-(K - 1):]])
        a, b = (np.asarray(gc(jnp.asarray(c), jnp.asarray(y))) for c, y in ((kum, x), (kum * pw[1:], x * u)))
        ctx.close('Gram-Charlier density (other units)', b * u, a, 1e-12 * np.max(np.abs(a)), rtol=1e-10, case=case)
        lo, hi = m - 4 * sd, m + 5 * sd
        r = np.array([float(c) for c in raw(law, K)])
        a, b = (np.asarray(leg(jnp.asarray(c), e, f, jnp.asarray(y))) for c, e, f, y in ((r, lo, hi, x), (r * pw, lo * u, hi * u, x * u)))
        ctx.close('Legendre density (other units)', b * u, a, 1e-12 * np.max(np.abs(a)), rtol=1e-10, case=case)
        sms = np.array([float(c) / sd ** i for i, c in enumerate(raw(law, K, mean_var(law)[0]))])
        if abs(sms[-1]) > 1e-9:
            y = x + 0.037 * sd
            a, b = (np.asarray(sp(jnp.asarray(sms), m * w, sd * w, jnp.asarray(y * w))) for w in (1., u))
            ctx.ok(np.array_equal(np.isfinite(a), np.isfinite(b)), 'saddle-point density (other units): where it is defined', case, (a, b))
            fin = np.isfinite(a) & np.isfinite(b)
            ctx.close('saddle-point density (other units)', (b * u)[fin], a[fin], 1e-9, rtol=1e-8, case=case)
        a, b = (np.asarray(cg(jnp.asarray(zs / w), jnp.asarray(sms), m * w, sd * w)) for w in (1., u))
        ctx.ok(np.array_equal(np.isfinite(a), np.isfinite(b)), 'cumulant generating function (other units): where it is defined', case, (a, b))
        fin = np.isfinite(a) & np.isfinite(b)
        ctx.close('cumulant generating function (other units)', b[fin], a[fin], 1e-10, rtol=1e-10, case=case)
        a, b = (np.asarray(cg(jnp.asarray(zs / w), jnp.asarray(r * w ** np.arange(K)), 0., 1.)) for w in (1., u))
        fin = np.isfinite(a) & np.isfinite(b)
        ctx.close('cumulant generating function of raw moments (other units)', b[fin], a[fin], 1e-10, rtol=1e-10, case=case)
        if K % 2 == 0 and not (law[0] == 'atoms' and 2 * len(law[1]) < K):
            a, b = (np.asarray(cfn(jnp.asarray(zs / w), jnp.asarray(sms), m * w, sd * w)) for w in (1., u))
            ctx.close('characteristic function (other units)', b, a, 1e-9, case=case)
        ctx.state((law, K, k))
        ctx.trans(6)
        ctx.trace(12)
    for n, even, k in itertools.product((3, 17, 100), (True, False), (-80, -40, -12, -3, 3, 12, 40, 80)):
        u = 2. ** k
        xs = np.linspace(-3, 3, n) if even else np.sort(np.sin(np.arange(n) * 1.3) * 3)
        ps = np.abs(np.cos(np.arange(n) * 0.7)) + 0.1
        case = dict(n=n, even=even, power_of_two=k)
        a, b = (np.asarray(cfp(jnp.asarray(zs / w), jnp.asarray(ps / w), jnp.asarray(xs * w))) for w in (1., u))
        ctx.close('characteristic function of a tabulated density (other units)', b, a, 1e-11, case=case)
        cfs = np.cos(np.arange(n) * 0.3) + 1j * np.sin(np.arange(n) * 0.7 + 1)
        a, b = (np.asarray(inv(jnp.asarray(zs * w), jnp.asarray(cfs), jnp.asarray(xs / w))) for w in (1., u))
        ctx.close('inverse Fourier transform (other units)', b * u, a, 1e-11, case=case)
        ctx.state((n, even, k))
        ctx.trans(2)
        ctx.trace(4)
    ctx.sample(case)
