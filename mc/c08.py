"""C08: conversions between raw, central and scaled moments and cumulants, and the combinatorial polynomials behind them."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc.common import FLOAT_TRUST

RULE = ('A state is one moment representation (raw, central, scaled) of one rational distribution; transitions are the '
        'conversions. All operation sequences up to the depth are explored for all distributions and lengths, and after '
        'every operation the float result is compared with the exact rational representation. Bell and Hermite polynomials and '
        'cumulants are compared with independent definitions (set partitions, explicit sums, exact power series).')
ASSUMPTIONS = [FLOAT_TRUST, 'tolerances are multiples of the sum of the absolute terms of each conversion']


def cfg(tier):
    return dict(depth=4, maxlen=14, longer=[24, 34, 35, 50], bell=9, herm=14) if tier == 'quick' else dict(depth=6, maxlen=24, longer=list(range(25, 61)), bell=11, herm=18)


def bounds(tier):
    return dict(cfg(tier), distributions=len(DISTS), scales=['sqrt(variance)', '1/2', '3', '-2'])


DISTS = [
    ([Fr(-1, 2), Fr(3, 4)], [Fr(1, 3), Fr(2, 3)]),
    ([Fr(-1), Fr(0), Fr(1)], [Fr(1, 4), Fr(1, 2), Fr(1, 4)]),
    ([Fr(0), Fr(1, 3), Fr(7, 5)], [Fr(1, 6), Fr(1, 2), Fr(1, 3)]),
    ([Fr(-3, 2), Fr(-1, 4), Fr(1, 2), Fr(5, 4)], [Fr(1, 5), Fr(3, 10), Fr(2, 5), Fr(1, 10)]),
    ([Fr(4), Fr(5), Fr(11, 2)], [Fr(1, 2), Fr(1, 4), Fr(1, 4)]),
    ([Fr(-30), Fr(10), Fr(25)], [Fr(1, 2), Fr(1, 4), Fr(1, 4)]),
    ([Fr(1, 100), Fr(-3, 100), Fr(1, 50)], [Fr(1, 2), Fr(1, 4), Fr(1, 4)]),
]


def units(tier):
    c = cfg(tier)
    us = [(f'sequences distribution {k}', ['seq', k], 20) for k in range(len(DISTS))]
    us += [('bell', ['bell', 0], 10), ('hermite', ['hermite', 0], 8), ('cumulants', ['cumulants', 0], 15), ('special', ['special', 0], 3)]
    return us


def run_unit(ctx, tier, kind, k):
    {'seq': sequences, 'bell': bell, 'hermite': hermite, 'cumulants': cumulants, 'special': special}[kind](ctx, tier, k)


def mom(dist, n, centre=Fr(0)):
    return sum(w * (a - centre) ** n for a, w in zip(*dist))


def sequences(ctx, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import central_to_raw, raw_to_central, raw_to_scaled, scaled_to_central
    c = cfg(tier)
    dist = DISTS[k]
    mean = mom(dist, 1)
    var = mom(dist, 2, mean)
    sd = math.sqrt(var)
    amax = float(max(abs(a) for a in dist[0]))
    for s in [*range(2, c['maxlen'] + 1), *c['longer']]:
        raw = np.array([float(mom(dist, n)) for n in range(s)])
        cen = np.array([float(mom(dist, n, mean)) for n in range(s)])
        scales = [(sd, True), (0.5, False), (3., False), (-2., False)]
        # total mass of the binomial expansions: the conditioning of the conversions
        dev = float(max(abs(a - mean) for a in dist[0]))
        mag = (amax + abs(float(mean)) + dev) ** np.arange(s) + 1e-300
        exact = {('raw',): raw, ('central',): cen}
        for i, (sc, _) in enumerate(scales):
            exact[('scaled', i)] = cen / np.array([sc ** n for n in range(s)])
        start = {('raw',): jnp.asarray(raw), ('central',): jnp.asarray(cen)}
        ops = []
        ops.append(('raw_to_central', ('raw',), ('central',), lambda v: raw_to_central(v)))
        ops.append(('central_to_raw', ('central',), ('raw',), lambda v: central_to_raw(v, float(mean))))
        for i, (sc, default) in enumerate(scales):
            ops.append((f'scaled_to_central {i}', ('scaled', i), ('central',), lambda v, sc=sc: scaled_to_central(v, sc)))
            if default:
                if s >= 3:
                    ops.append(('raw_to_scaled', ('raw',), ('scaled', i), lambda v: raw_to_scaled(v)))
                    ops.append(('raw_to_scaled None', ('raw',), ('scaled', i), lambda v: raw_to_scaled(v, None)))
            ops.append((f'raw_to_scaled {i}', ('raw',), ('scaled', i), lambda v, sc=sc: raw_to_scaled(v, sc)))
            ops.append((f'raw_to_scaled jax {i}', ('raw',), ('scaled', i), lambda v, sc=sc: raw_to_scaled(v, jnp.asarray(sc))))
        jitted = {}
        depth = c['depth'] if s in (2, 3, 4, 7) else 2
        # breadth-first over operation sequences; values reached by different sequences are different states
        frontier = [((), key, v, 1e-14 * np.abs(np.asarray(v))) for key, v in start.items()]
        am = abs(float(mean))
        binom = np.array([[math.comb(n, j) * am ** (n - j) if n >= j else 0. for j in range(s)] for n in range(s)])
        dbinom = np.array([[math.comb(n, j) * (n - j) * am ** max(n - j - 1, 0) if n >= j else 0. for j in range(s)] for n in range(s)])
        scp = lambda i: np.array([abs(scales[i][0]) ** n for n in range(s)])

        def propagate(src, dst, name, tol):
            """First-order propagation of the error of the argument through one conversion."""
            if src == ('raw',):
                out = binom @ tol + (dbinom @ np.abs(raw)) * tol[1]
                if dst[0] == 'scaled':
                    out = out / scp(dst[1])
                    if dst[1] == 0 and s >= 3:  # the scale comes from the argument
                        out = out + np.arange(s) * np.abs(exact[dst]) * (tol[2] + 2 * am * tol[1]) / (2 * float(var))
                return out
            return binom @ tol if src == ('central',) else tol * scp(src[1])

        seen = set()
        for dep in range(depth):
            nxt = []
            for path, key, v, te in frontier:
                for name, src, dst, fn in ops:
                    if src != key:
                        continue
                    if len(path) >= 2 and ('jax' in name or 'None' in name):
                        continue
                    if dep == 0:
                        out = fn(v)
                    else:  # the same operation, traced
                        if name not in jitted:
                            jitted[name] = jax.jit(fn)
                        out = jitted[name](v)
                    p = path + (name,)
                    want = exact[dst]
                    f = 1. if dst[0] != 'scaled' else 1. / np.array([abs(scales[dst[1]][0]) ** n for n in range(s)])
                    tol = 1e-13 * (15 + s) * mag * f + 2 * propagate(src, dst, name, te)
                    ctx.close(f'{name}', out, want, tol, case=dict(distribution=k, length=s, sequence=p),
                              describe=lambda i: dict(distribution=k, length=s, sequence=p, order=int(i[0])))
                    ctx.trans()
                    ctx.trace()
                    ctx.state((k, s, p))
                    nxt.append((p, dst, jnp.asarray(out), tol))
            frontier = nxt
        ctx.outcomes.update(np.round(np.asarray(frontier[0][2]), 9).tolist())
    ctx.sample(dict(distribution=dist, sequence=['raw_to_central', 'central_to_raw', 'raw_to_scaled']))


def set_partition_blocks(n):
    """All integer partitions of n as multiplicities, with the number of set partitions of each type."""
    def parts(n, m):
        if n == 0:
            yield ()
            return
        for k in range(min(n, m), 0, -1):
            for rest in parts(n - k, k):
                yield (k,) + rest

    for p in parts(n, n):
        cnt = math.factorial(n)
        for b in p:
            cnt //= math.factorial(b)
        for b in set(p):
            cnt //= math.factorial(p.count(b))
        yield p, cnt


def bell(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.utils import complete_bell, partial_bell
    B = cfg(tier)['bell']
    vecs = [[Fr(1)] * B, [Fr(i + 1, 2) * (-1) ** i for i in range(B)], [Fr(0), Fr(0)] + [Fr(i, 3) for i in range(B - 2)],
            [Fr(math.factorial(i)) for i in range(B)], [Fr(-2), Fr(5, 2), Fr(0), Fr(1, 3)] + [Fr(1, 1 + i) for i in range(B - 4)],
            [Fr(0)] * B]
    for vi, x in enumerate(vecs):
        for n in range(0, B + 1):
            types = list(set_partition_blocks(n))
            full = Fr(0)
            for k in range(0, n + 2):
                want = sum((c * math.prod((x[b - 1] for b in p), start=Fr(1)) for p, c in types if len(p) == k), Fr(0))
                mass = sum((c * math.prod((abs(x[b - 1]) for b in p), start=Fr(1)) for p, c in types if len(p) == k), Fr(0))
                if k <= n:
                    full += want
                need = max(n - k + 1, 0)
                tol = 1e-12 * float(mass) + 1e-300
                case = dict(n=n, k=k, vector=vi)
                forms = {'list': [float(v) for v in x], 'tuple': tuple(float(v) for v in x[:max(need, 1)]), 'numpy': np.array([float(v) for v in x[:max(need, 1)]])}
                for form, v in forms.items():
                    ctx.close(f'partial Bell ({form})', partial_bell(n, k, v), float(want), tol, case=case)
                if n <= 6 and k <= n:
                    got = jax.jit(lambda z: partial_bell(n, k, z) + 0. * z[0])(jnp.array(forms['numpy']))
                    ctx.close('partial Bell (jax)', got, float(want), tol, case=case)
                ctx.state((n, k, vi))
                ctx.trans()
                ctx.trace(3)
            mass = sum((c * math.prod((abs(x[b - 1]) for b in p), start=Fr(1)) for p, c in types), Fr(0))
            for form, v in {'list': [float(v) for v in x[:max(n, 1)]], 'numpy': np.array([float(v) for v in x])}.items():
                ctx.close(f'complete Bell ({form})', complete_bell(n, v), float(full) if n else 1., 1e-12 * float(mass) + 1e-300, case=dict(n=n, vector=vi))
            ctx.outcomes.add(str(full))
    # higher orders: by the recurrence of the polynomials over the last block
    M = 14 if tier == 'quick' else 17
    for vi, x in enumerate(([Fr(i + 1, 4) * (-1) ** i for i in range(M)], [Fr(1, i + 1) for i in range(M)])):
        def table(x):
            T = {(0, 0): Fr(1)}
            for n in range(1, M + 1):
                for k in range(1, n + 1):
                    T[n, k] = sum((math.comb(n - 1, i - 1) * x[i - 1] * T.get((n - i, k - 1), Fr(0)) for i in range(1, n + 1)), Fr(0))
            return T
        want, mass = table(x), table([abs(v) for v in x])
        f = [float(v) for v in x]
        for n in range(B + 1, M + 1):
            for k in range(1, n + 1):
                ctx.close('partial Bell (high order)', partial_bell(n, k, f), float(want[n, k]), 1e-12 * float(mass[n, k]), case=dict(n=n, k=k, vector=vi))
                ctx.state((n, k, 'high', vi))
                ctx.trans()
                ctx.trace()
            ctx.close('complete Bell (high order)', complete_bell(n, f), float(sum(want[n, k] for k in range(1, n + 1))), 1e-12 * float(sum(mass[n, k] for k in range(1, n + 1))), case=dict(n=n, vector=vi))
    # containers which are changed in place between the calls
    for make, name in ((list, 'list'), (np.array, 'numpy')):
        for n, k in ((1, 1), (3, 2), (4, 2), (5, 3), (5, 5)):
            box = make([0.] * 5)
            for step, x in enumerate(itertools.product((-1., 0.5), repeat=5)):
                for i in range(5):
                    box[i] = x[i]
                case = dict(n=n, k=k, container=name, step=step)
                want = [sum((c * math.prod((Fr(x[b - 1]) for b in p), start=Fr(1)) for p, c in set_partition_blocks(n) if len(p) == kk), Fr(0)) for kk in range(n + 1)]
                ctx.close('partial Bell (container changed in place)', partial_bell(n, k, box), float(want[k]), 1e-11, case=case)
                ctx.close('complete Bell (container changed in place)', complete_bell(n, box), float(sum(want[1:])), 1e-11, case=case)
                ctx.ok(list(box) == list(x), 'the input is changed by the call', case, list(box))
                ctx.state((n, k, name, step))
                ctx.trans()
                ctx.trace(2)
    ctx.sample(dict(n=4, k=2, value='4 x1 x3 + 3 x2^2'))


def hermite(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.utils import hermite_probabilist
    H = cfg(tier)['herm']
    for n in range(H + 9):
        co = {n - 2 * m: Fr((-1) ** m * math.factorial(n), math.factorial(m) * math.factorial(n - 2 * m) * 2 ** m) for m in range(n // 2 + 1)}
        for x in [Fr(v, 4) for v in range(-20, 21)] + [Fr(s * v) for v in (10, 75, 1000) for s in (1, -1)] if n <= H else [Fr(-7, 2), Fr(0), Fr(1, 4), Fr(6), Fr(75)]:
            want = sum(c * x ** p for p, c in co.items())
            mass = sum(abs(c * x ** p) for p, c in co.items())
            ctx.close('Hermite polynomial', hermite_probabilist(n, float(x)), float(want), 1e-12 * float(mass) + 1e-300, case=dict(n=n, x=x))
            ctx.state((n, x))
            ctx.trans()
            ctx.trace()
        if n <= 8:
            xs = jnp.linspace(-3., 3., 7)
            got = jax.jit(lambda u: hermite_probabilist(n, u) + 0. * u)(xs)
            want = [sum(float(c) * float(v) ** p for p, c in co.items()) for v in xs]
            ctx.close('Hermite polynomial of an array', got, want, 1e-9, case=n)
        ctx.outcomes.add(n)
    ctx.sample(dict(n=5))


def exact_cumulants(raw):
    """k_n = m_n - sum_{j<n} C(n-1, j-1) k_j m_{n-j}."""
    k = [None]
    for n in range(1, len(raw)):
        k.append(raw[n] - sum(math.comb(n - 1, j - 1) * k[j] * raw[n - j] for j in range(1, n)))
    return k[1:]


def cumulants(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import sms_to_cumulants
    L = 9 if tier == 'quick' else 11
    for di, dist in enumerate(DISTS):
        mean = mom(dist, 1)
        var = mom(dist, 2, mean)
        amax = float(max(abs(a - mean) for a in dist[0]))
        for s in range(2, L + 1):
            want = [float(v) for v in exact_cumulants([mom(dist, n) for n in range(s)])]
            tolv = np.array([1e-11 * math.factorial(n) * amax ** n + 1e-12 * (abs(float(mean)) if n == 1 else 0.) for n in range(1, s)])
            for sc in (math.sqrt(var), 0.5, 2.):
                sms = jnp.array([float(mom(dist, n, mean)) / sc ** n for n in range(s)])
                got = sms_to_cumulants(sms, float(mean), sc)
                case = dict(distribution=di, length=s, scale=sc)
                ctx.close('cumulants', got, want, tolv + 1e-300, case=case, describe=lambda i: dict(case, order=int(i[0]) + 1))
                got = sms_to_cumulants(sms, jnp.asarray(float(mean)), jnp.asarray(sc))
                ctx.close('cumulants (jax scalars)', got, want, tolv + 1e-300, case=case)
                if s <= 6:
                    got = jax.jit(lambda v: sms_to_cumulants(v, float(mean), sc))(sms)
                    ctx.close('cumulants (traced)', got, want, tolv + 1e-300, case=case)
                ctx.state((di, s, sc))
                ctx.trans()
                ctx.trace(3)
            # with mean 0 and scale 1 the moments are raw ones
            raw = jnp.array([float(mom(dist, n)) for n in range(s)])
            b = float(max(abs(a) for a in dist[0]))
            ctx.close('cumulants of raw moments', sms_to_cumulants(raw, 0., 1.), want, np.array([1e-11 * math.factorial(n) * b ** n for n in range(1, s)]),
                      case=dict(distribution=di, length=s))
            ctx.outcomes.add(round(want[-1], 9))
    # Normal: k_1 = mean, k_2 = variance, others vanish
    for mu, sd in itertools.product((0., 1.5, -0.25), (0.5, 1., 2.)):
        sms = jnp.array([0. if n % 2 else math.prod(range(1, n, 2)) for n in range(8)], dtype='float64')
        ctx.close('cumulants of Normal', sms_to_cumulants(sms, mu, sd), [mu, sd ** 2] + [0.] * 5, 1e-9 * np.maximum(sd, 1.) ** np.arange(1, 8) * 100, case=(mu, sd))
    ctx.sample(dict(distribution=DISTS[0]))


def special(ctx, tier, _):
    import jax.numpy as jnp
    from mfs.utils import binom, factorial, gamma
    for n in range(0, 31):
        ctx.close('factorial', factorial(jnp.asarray(float(n))), float(math.factorial(n)), 0., rtol=1e-11, case=n)
        if n:
            ctx.close('gamma', gamma(jnp.asarray(float(n))), float(math.factorial(n - 1)), 0., rtol=1e-11, case=n)
        ctx.close('gamma at half integers', gamma(jnp.asarray(n + 0.5)), math.gamma(n + 0.5), 0., rtol=1e-11, case=n)
        for k in range(n + 1):
            ctx.close('binomial coefficient', binom(jnp.asarray(float(n)), jnp.asarray(float(k))), float(math.comb(n, k)), 0., rtol=1e-10, case=(n, k))
            ctx.state((n, k))
            ctx.trans()
    ctx.close('binomial coefficients of arrays', binom(jnp.arange(10.), jnp.full((10,), 0.)), np.ones(10), 0., rtol=1e-10)
    ctx.trace(31)
    ctx.sample(dict(n=5, k=2))
