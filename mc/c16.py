"""C16: resampling, for every weight vector of a rational grid and every random tape of a grid."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.common import FLOAT_TRUST
from mc.tape import patched, shape_of

RULE = ('A state is one weight vector (all compositions of the grid, so zero weights in all positions are included) and the transition is one '
        'resampling under one random tape; the uniform generator is replaced by the tape, and all tapes of the grid, including 0 and the '
        'largest double below 1, are enumerated. The grid of the uniforms refines all break points, so that expectations over the tape '
        'are exact, and unbiasedness is decided and not estimated.')
ASSUMPTIONS = [FLOAT_TRUST, 'dyadic weights, whose cumulative sums are exact', 'the generator draws uniforms in [0, 1)']


def cfg(tier):
    if tier == 'quick':
        return dict(grid={1: 16, 2: 16, 3: 16, 4: 16, 5: 8, 6: 8, 8: 8}, joint={1: 16, 2: 16, 3: 8}, multi={1: 4, 2: 4, 3: 4, 4: 3, 5: 2}, conti={2: 8, 3: 8, 4: 4}, large=[16, 31, 64, 100, 257, 600])
    return dict(grid={1: 32, 2: 32, 3: 32, 4: 16, 5: 16, 6: 8, 7: 8, 8: 8, 9: 8}, joint={1: 32, 2: 32, 3: 16, 4: 8}, multi={1: 5, 2: 5, 3: 5, 4: 4, 5: 3, 6: 2},
                conti={2: 16, 3: 16, 4: 8, 5: 8}, large=[12, 16, 31, 64, 100, 128, 257, 600, 1024, 2000])


def bounds(tier):
    c = cfg(tier)
    return dict(particles_and_weight_grid=c['grid'], joint_tapes=c['joint'], multinomial_alphabet=c['multi'], continuous=c['conti'], large_particle_numbers=c['large'])


def units(tier):
    c = cfg(tier)
    us = []
    for n, G in c['grid'].items():
        us.append((f'systematic n={n}', ['systematic', n, G], 3 + n))
        us.append((f'stratified n={n}', ['stratified', n, G], 3 + n))
    for n, G in c['joint'].items():
        us.append((f'stratified joint n={n}', ['joint', n, G], 4 + n))
    for n, a in c['multi'].items():
        us.append((f'multinomial n={n}', ['multinomial', n, a], 4 + n))
    for n, G in c['conti'].items():
        us.append((f'continuous n={n}', ['continuous', n, G], 4 + n))
    for n in c['large']:
        us.append((f'large n={n}', ['large', n, 4096], 5 + n / 50))
    for n in (2, 4, 8):
        us.append((f'nearly equal break points n={n}', ['fine', n, 8], 4 + n))
    us.append(('real keys', ['keys', 0, 0], 5))
    return us


def run_unit(ctx, tier, kind, n, G):
    {'systematic': shared, 'stratified': shared, 'joint': joint, 'multinomial': multinomial, 'continuous': continuous, 'keys': keys, 'large': large, 'fine': fine}[kind](ctx, tier, kind, n, G)


def compositions(total, n):
    if n == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, n - 1):
            yield (k,) + r


LAST = 1. - 2. ** -53


def inverse_cdf(w, G, z):
    """Smallest j with C_j > z; w integer weights over G."""
    c = 0
    for j, v in enumerate(w):
        c += v
        if Fr(c, G) > z:
            return j
    return max(j for j, v in enumerate(w) if v)


class Uniform:
    """Stub of jax.random.uniform: returns the (traced) tape, reshaped."""

    def __init__(self):
        self.calls = []
        self.tape = None

    def __call__(self, key, *args, **kw):
        import jax.numpy as jnp
        s = shape_of(args, kw)
        self.calls.append(s)
        if self.tape is None:
            raise RuntimeError('no tape')
        size = math.prod(s)
        if size > self.tape.size:  # a longer draw than the tape: not a behaviour of the model
            raise TapeTooShort(s)
        lo, hi = kw.get('minval', 0.), kw.get('maxval', 1.)
        return lo + (hi - lo) * jnp.reshape(jnp.ravel(self.tape)[:size], s)


class TapeTooShort(Exception):
    pass


def runner(fn, u):
    """Jitted map (weights, tape) -> indices, over batches of both."""
    import jax
    key = jax.random.PRNGKey(0)

    def one(w, t):
        u.tape = t
        try:
            return fn(w, key)
        finally:
            u.tape = None

    return jax.jit(jax.vmap(jax.vmap(one, in_axes=[None, 0]), in_axes=[0, None]))


def stubs(u):
    import jax.numpy as jnp
    return dict(uniform=u, exponential=lambda key, *a, **k: -jnp.log1p(-u(key, *a, **k)))


def shared(ctx, tier, kind, n, G):
    """One uniform for all strata (systematic), or the same uniform in all strata (diagonal tapes of stratified)."""
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    fn = getattr(resampling, kind)
    ws = list(compositions(G, n))
    den = 2 * G
    us = [Fr(k, den) for k in range(den)] + [None]
    tapes = np.array([[float(v) if v is not None else LAST] * n for v in us])
    u = Uniform()
    for dtype in ('float64', 'float32') if n in (2, 4, 8) else ('float64',):
        last = LAST if dtype == 'float64' else 1. - 2. ** -24
        tapes[-1] = last
        with patched(**stubs(u)):
            got = np.asarray(runner(fn, u)(jnp.asarray(np.array(ws) / G, dtype=dtype), jnp.asarray(tapes, dtype=dtype)))
        ctx.ok(len(u.calls) > 0, 'the generator is not used', kind)
        ctx.ok(got.shape == (len(ws), len(us), n) and got.dtype.kind == 'i', 'shape or type of the indices', dict(n=n), (got.shape, got.dtype))
        want = np.array([[[inverse_cdf(w, G, (i + v) / n) for i in range(n)] for v in us[:-1]] for w in ws])
        W = np.array(ws)
        for a, w in enumerate(ws):
            case = dict(scheme=kind, weights=w, denominator=G, dtype=dtype)
            # at an interior break point a point (i + u) / n that is not a binary fraction may be rounded to either side
            tie = np.array([[v + i > 0 and ((i + v) / n * G).denominator == 1 for i in range(n)] for v in us[:-1]]) if n & (n - 1) else np.zeros(want[a].shape, bool)
            bad = np.argwhere((got[a, :-1] != want[a]) & ~tie)
            ctx.evaluations += want[a].size
            if len(bad):
                ctx.fail('selected particles', dict(case, uniform=us[bad[0][0]]), f'{got[a, bad[0][0]]} instead of {want[a, bad[0][0]]}')
            ctx.ok(np.all((got[a] >= 0) & (got[a] < n)), 'index out of range', case)
            if np.all((got[a] >= 0) & (got[a] < n)):
                ctx.ok(np.all(W[a][got[a]] > 0), 'a particle of zero weight is selected', case, got[a][-1])
                counts = np.stack([np.bincount(g, minlength=n) for g in got[a, :-1]])
                x = np.array([Fr(v * n, G) for v in w])
                lo, hi = np.array([math.floor(v) for v in x]), np.array([math.ceil(v) for v in x])
                if kind == 'systematic':
                    free = ~tie.any(axis=1)
                    ctx.ok(np.all((counts[free] >= lo) & (counts[free] <= hi)), 'number of copies differs from n w by one or more', case)
                else:
                    ctx.ok(np.all((counts > x - 2) & (counts < x + 2)), 'number of copies differs from n w by two or more', case)
                # the uniforms at the centres of the cells integrate the step function exactly
                mid = counts[1::2].sum(0)
                ctx.ok(all(Fr(int(m), G) == v for m, v in zip(mid, x)), 'the expected number of copies is not n w', case, f'{mid.tolist()} / {G} instead of {x.tolist()}')
                ctx.ok(np.all(np.diff(got[a], axis=1) >= 0), 'indices are not sorted', case)
            ctx.state((kind, n, w))
            ctx.trans(len(us))
            ctx.trace(len(us))
            ctx.outcomes.update(map(tuple, got[a].tolist()))
    ctx.sample(dict(scheme=kind, weights=ws[len(ws) // 2], uniform=us[1]))


def joint(ctx, tier, kind, n, G):
    """Stratified resampling with independent uniforms: all tapes."""
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.resampling import stratified
    ws = list(compositions(G, n))
    us = [Fr(2 * k + 1, 2 * G) for k in range(G)]
    tapes = list(itertools.product(range(G), repeat=n))
    u = Uniform()
    with patched(**stubs(u)):
        got = np.asarray(runner(stratified, u)(jnp.asarray(np.array(ws) / G), jnp.asarray(np.array([[float(us[i]) for i in t] for t in tapes]))))
    for a, w in enumerate(ws):
        table = np.array([[inverse_cdf(w, G, (i + v) / n) for v in us] for i in range(n)])
        want = np.array([[table[i, t[i]] for i in range(n)] for t in tapes])
        case = dict(scheme='stratified', weights=w, denominator=G)
        bad = np.argwhere(got[a] != want)
        ctx.evaluations += want.size
        if len(bad):
            ctx.fail('selected particles', dict(case, tape=[us[i] for i in tapes[bad[0][0]]]), f'{got[a, bad[0][0]]} instead of {want[bad[0][0]]}')
        counts = np.bincount(got[a].ravel(), minlength=n)
        ctx.ok(all(Fr(int(c), len(tapes)) == Fr(v * n, G) for c, v in zip(counts, w)), 'the expected number of copies is not n w', case)
        ctx.state(('joint', n, w))
        ctx.trans(len(tapes))
        ctx.trace(len(tapes))
        ctx.outcomes.update(map(tuple, got[a][:50].tolist()))
    ctx.sample(dict(scheme='stratified', weights=ws[0], tape=[us[i] for i in tapes[-1]]))


def multinomial(ctx, tier, kind, n, a):
    """All tapes over an alphabet of uniforms, against order statistics of exponential spacings."""
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.resampling import multinomial as fn
    G = 16 if n <= 4 else 8
    ws = list(compositions(G, n))
    letters = [Fr(0), Fr(1, 8), Fr(1, 2), Fr(7, 8), Fr(31, 32)]
    letters = [letters[i] for i in {2: (0, 3), 3: (0, 2, 4), 4: (0, 1, 2, 4), 5: (0, 1, 2, 3, 4)}[a]]
    tapes = [t for t in itertools.product(letters, repeat=n + 1) if any(t)]
    e = {v: -mp.log1p(-mp.mpf(v.numerator) / v.denominator) for v in letters}
    sorted_us = []
    for t in tapes:
        z = list(itertools.accumulate(e[v] for v in t))
        sorted_us.append([v / z[-1] for v in z[:-1]])
    u = Uniform()
    with patched(**stubs(u)):
        got = np.asarray(runner(fn, u)(jnp.asarray(np.array(ws) / G), jnp.asarray(np.array([[float(v) for v in t] for t in tapes]))))
    ctx.ok(got.shape == (len(ws), len(tapes), n) and got.dtype.kind == 'i', 'shape or type of the indices', dict(n=n), (got.shape, got.dtype))
    # break points of all weights are multiples of 1/G: find the cell of each sorted uniform once
    cells = [[(int(mp.floor(s * G)), abs(s * G - mp.nint(s * G)) < 1e-9) for s in ss] for ss in sorted_us]
    C = np.array([[c for c, _ in r] for r in cells])
    sure = np.array([[not b for _, b in r] for r in cells])
    for k, w in enumerate(ws):
        case = dict(scheme='multinomial', weights=w, denominator=G)
        owner = np.repeat(np.arange(n), w)
        want = owner[np.minimum(C, G - 1)]
        ctx.evaluations += want.size
        bad = np.argwhere((got[k] != want) & sure)
        if len(bad):
            ctx.fail('selected particles', dict(case, tape=tapes[bad[0][0]]), f'{got[k, bad[0][0]]} instead of {want[bad[0][0]]}')
        ctx.ok(np.all((got[k] >= 0) & (got[k] < n)) and np.all(np.array(w)[np.clip(got[k], 0, n - 1)] > 0), 'a particle of zero weight is selected', case)
        ctx.state(('multinomial', n, w))
        ctx.trans(len(tapes))
        ctx.trace(len(tapes))
        ctx.outcomes.update(map(tuple, got[k][:50].tolist()))
    ctx.sample(dict(scheme='multinomial', weights=ws[-1], tape=tapes[-1]))


def continuous(ctx, tier, kind, n, G):
    """Continuous resampling: stratified draws from the piecewise-linear inverse of the averaged distribution function."""
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.resampling import continuous_resampling
    import jax
    ws = list(compositions(G, n))
    xss = [[Fr(-1), Fr(1, 2), Fr(2), Fr(3), Fr(7, 2)][:n], [Fr(3), Fr(-2), Fr(1, 4), Fr(0), Fr(5)][:n], [Fr(1), Fr(1), Fr(0), Fr(1), Fr(0)][:n],
           [1 + Fr(k, 2 ** 28) for k in (3, 0, 4, 1, 2)][:n], [Fr(-10 ** 6), Fr(1, 2 ** 30), Fr(2 * 10 ** 6), Fr(-1, 2 ** 30), Fr(0)][:n]]
    us = [Fr(2 * k + 1, 4 * G) for k in range(2 * G)] + [Fr(0)]
    tapes = [[v] * 9 for v in us] + [[us[(3 * i + 5 * j) % len(us)] for i in range(9)] for j in range(12)]
    u = Uniform()
    key = jax.random.PRNGKey(0)
    for xs in xss:
        for m in (n, 1, 2 * n):
            def one(w, t):
                u.tape = t
                try:
                    return continuous_resampling(jnp.asarray([float(x) for x in xs]), w, m, key)
                finally:
                    u.tape = None

            with patched(**stubs(u)):
                got = np.asarray(jax.jit(jax.vmap(jax.vmap(one, in_axes=[None, 0]), in_axes=[0, None]))(
                    jnp.asarray(np.array(ws) / G), jnp.asarray(np.array([[float(v) for v in t] for t in tapes]))))
            order = sorted(range(n), key=lambda i: xs[i])
            sx = [xs[i] for i in order]
            for a, w in enumerate(ws):
                sw = [Fr(w[i], G) for i in order]
                tied = any(xs[i] == xs[j] and w[i] != w[j] for i in range(n) for j in range(n))
                cs, acc = [], Fr(0)
                for v in sw:
                    cs.append(acc + v / 2)
                    acc += v
                want = np.full(got[a].shape, np.nan)
                for b, t in enumerate(tapes):
                    for i in range(m):
                        z = (t[i] + i) / m
                        if z in cs and (cs.count(z) > 1):
                            continue
                        want[b, i] = interp(z, cs, sx)
                case = dict(weights=w, denominator=G, samples=xs, nsamples=m)
                if not tied:
                    ok = ~np.isnan(want)
                    ctx.close('continuously resampled particles', got[a][ok], want[ok], 1e-11 * max(1., float(max(abs(x) for x in xs))), rtol=1e-11, case=case)
                ctx.ok(np.all((got[a] >= float(min(sx)) - 1e-12) & (got[a] <= float(max(sx)) + 1e-12)), 'outside the range of the particles', case)
                ctx.ok(np.all(np.diff(got[a], axis=1) >= -1e-12), 'not monotone in the stratum', case)
                ctx.state((n, m, w, tuple(xs)))
                ctx.trans(len(tapes))
                ctx.trace(len(tapes))
    ctx.sample(dict(samples=xss[1], weights=ws[1]))


def fine(ctx, tier, kind, n, G):
    """Weights with 40 binary digits, and points 2^-44 (multinomial: 2^-36) to the left and right of every break point."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    D = 2 ** 40
    ws = []
    for base in itertools.islice(compositions(G, n), 0, None, 1 if n < 8 else 97):
        for i, j in ((0, n - 1), (n - 1, 0), (n // 2, 0)):
            w = [v * (D // G) for v in base]
            for e in (1, 2 ** 13 + 5):
                v = list(w)
                v[i] += e
                v[j] -= e
                if i != j and min(v) >= 0:
                    ws.append(tuple(v))
    for scheme in ('systematic', 'stratified'):
        u = Uniform()
        with patched(**stubs(u)):
            f = runner(getattr(resampling, scheme), u)
            tapes = []
            for w in ws:
                ts = []
                for c in list(itertools.accumulate(w))[:-1]:
                    for s in (-1, 1):
                        z = Fr(c, D) + Fr(s, 2 ** 44)
                        ts.append(n * z - math.floor(n * z) if 0 <= z < 1 else Fr(1, 2))
                tapes.append(ts)
            got = np.concatenate([np.asarray(f(jnp.asarray([[float(Fr(v, D)) for v in w]]), jnp.asarray([[float(v)] * n for v in ts]))) for w, ts in zip(ws, tapes)])
        for a, (w, ts) in enumerate(zip(ws, tapes)):
            want = np.array([[inverse_cdf(w, D, (i + v) / n) for i in range(n)] for v in ts])
            ctx.evaluations += want.size
            bad = np.argwhere(got[a] != want)
            if len(bad):
                ctx.fail('selected particles (nearly equal break points)', dict(scheme=scheme, weights=w, denominator=D, uniform=ts[bad[0][0]]), f'{got[a, bad[0][0]]} instead of {want[bad[0][0]]}')
            ctx.state((scheme, n, w))
            ctx.trans(len(ts))
            ctx.trace(len(ts))
    # multinomial: the break points are put next to the order statistics of each tape
    letters = [Fr(1, 8), Fr(1, 2), Fr(7, 8)]
    tapes = list(itertools.product(letters, repeat=n + 1)) if n < 8 else [tuple(letters[(a * i + b) % 3] for i in range(n + 1)) for a in range(3) for b in range(3)]
    W, want = [], []
    for t in tapes:
        z = list(itertools.accumulate(-mp.log1p(-mp.mpf(v.numerator) / v.denominator) for v in t))
        su = [v / z[-1] for v in z[:-1]]
        for s in (-1, 1):
            cs = [int(mp.nint(v * D)) + s * 16 for v in su[1:]] + [D]
            W.append([float(Fr(b - a, D)) for a, b in zip([0] + cs[:-1], cs)])
            want.append([next(k for k, c in enumerate(cs) if mp.mpf(c) / D > v) for v in su])
    u = Uniform()
    key = jax.random.PRNGKey(0)

    def one(w, t):
        u.tape = t
        try:
            return resampling.multinomial(w, key)
        finally:
            u.tape = None

    with patched(**stubs(u)):
        got = np.asarray(jax.jit(jax.vmap(one))(jnp.asarray(W), jnp.asarray([[float(v) for v in t] for t in tapes for _ in range(2)])))
    for a, t in enumerate(tapes):
        for b in range(2):
            k = 2 * a + b
            ctx.ok(np.array_equal(got[k], want[k]), 'selected particles (nearly equal break points)', dict(scheme='multinomial', tape=t, weights=W[k]), f'{got[k]} instead of {want[k]}')
            ctx.state(('multinomial', n, k))
            ctx.trans()
            ctx.trace()
    # continuous
    xs = [Fr((5 * i + 3) % (2 * n + 1), 4) for i in range(n)]
    order = sorted(range(n), key=lambda i: xs[i])
    us = [Fr(2 * k + 1, 2 * G) for k in range(G)]

    def cont(w, t):
        u.tape = t
        try:
            return resampling.continuous_resampling(jnp.asarray([float(x) for x in xs]), w, n, key)
        finally:
            u.tape = None

    pos = [w for w in ws if min(w) > D // (2 * G)]
    if pos:
        with patched(**stubs(u)):
            got = np.asarray(jax.jit(jax.vmap(jax.vmap(cont, in_axes=[None, 0]), in_axes=[0, None]))(
                jnp.asarray([[float(Fr(v, D)) for v in w] for w in pos]), jnp.asarray([[float(v)] * n for v in us])))
        for a, w in enumerate(pos):
            sw = [Fr(w[i], D) for i in order]
            acc = [Fr(0)] + list(itertools.accumulate(sw))
            cs = [c + v / 2 for c, v in zip(acc, sw)]
            want = np.array([[interp((i + v) / n, cs, [xs[k] for k in order]) for i in range(n)] for v in us])
            ctx.close('continuously resampled particles (fine weights)', got[a], want, 1e-12, rtol=1e-12, case=dict(weights=w, denominator=D))
            ctx.state(('continuous', n, w))
            ctx.trans(len(us))
            ctx.trace(len(us))
    ctx.sample(dict(n=n, weights=ws[0], denominator=D))


def large_weights(n, G):
    """Integer weights with sum G: sparse, one dominant (in all of three positions), geometric, periodic with zeros at the ends."""
    def fill(v):
        v = [int(x) for x in v]
        assert 0 <= sum(v) <= G
        k = max(range(n), key=lambda i: v[i])
        v[k] += G - sum(v)
        return v

    out = [fill([G // n] * n)]
    for pos in (0, n // 2, n - 1):
        out.append(fill([G if i == pos else 0 for i in range(n)]))
        out.append(fill([G // 2 if i == pos else (G // (2 * n)) for i in range(n)]))
    out.append(fill([G >> (i + 1) for i in range(n)]))
    out.append(fill([G >> (n - i) if n - i < 40 else 0 for i in range(n)]))
    per = [0 if i % 3 != 1 or i in (0, n - 1) else (i * 7 % 5 + 1) for i in range(n)]
    tot = sum(per)
    out.append(fill([v * G // tot for v in per]))
    return out


def large(ctx, tier, kind, n, G):
    """Many particles: all schemes, a family of weight vectors, and tapes of constant and of varying uniforms."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    ws = large_weights(n, G)
    W = np.array(ws) / G
    const = [Fr(k, 8) + Fr(1, 16) for k in range(8)]
    tapes = [[v] * (n + 1) for v in const] + [[Fr((a * i + b) % 64, 64) + Fr(1, 128) for i in range(n + 1)] for a, b in ((5, 3), (37, 11), (63, 0), (1, 40))]
    tf = np.array([[float(v) for v in t] for t in tapes])
    owners = [np.repeat(np.arange(n), w) for w in ws]
    strat = [[(t[i] + i) / n for i in range(n)] for t in tapes]
    multi = []
    for t in tapes:
        z = list(itertools.accumulate(-mp.log1p(-mp.mpf(v.numerator) / v.denominator) for v in t))
        multi.append([v / z[-1] for v in z[:-1]])
    for name, zs, sel in (('systematic', strat, range(8)), ('stratified', strat, range(len(tapes))), ('multinomial', multi, range(len(tapes)))):
        sel = list(sel)
        u = Uniform()
        with patched(**stubs(u)):
            got = np.asarray(runner(getattr(resampling, name), u)(jnp.asarray(W), jnp.asarray(tf[sel])))
        ctx.ok(got.shape == (len(ws), len(sel), n), 'shape of the indices', dict(scheme=name, n=n), got.shape)
        if name == 'multinomial':
            C = np.array([[int(mp.floor(z * G)) for z in zs[b]] for b in sel])
            sure = np.array([[abs(z * G - mp.nint(z * G)) > 1e-7 for z in zs[b]] for b in sel])
        else:
            C = np.array([[int(z * G) for z in zs[b]] for b in sel])
            sure = np.array([[z * G != int(z * G) for z in zs[b]] for b in sel])
        for a, w in enumerate(ws):
            want = owners[a][C]
            ctx.evaluations += want.size
            bad = np.argwhere((got[a] != want) & sure)
            case = dict(scheme=name, n=n, weights=a, denominator=G)
            if len(bad):
                ctx.fail('selected particles', dict(case, tape=sel[bad[0][0]]), f'{got[a][tuple(bad[0])]} instead of {want[tuple(bad[0])]} in position {bad[0][1]}')
            ctx.ok(np.all((got[a] >= 0) & (got[a] < n)) and np.all(np.array(w)[np.clip(got[a], 0, n - 1)] > 0), 'a particle of zero weight is selected', case)
            ctx.state((name, n, a))
            ctx.trans(len(sel))
            ctx.trace(len(sel))
    # continuous resampling
    key = jax.random.PRNGKey(0)
    x = np.array([((i * 37) % 101) * 0.25 - 11. + i / 1024. for i in range(n)])
    order = np.argsort(x, kind='stable')
    for m in (n, n - 1, min(2 * n, 900)):
        t2 = np.array([[((a * i + b) % 64) / 64. + 1 / 128. for i in range(m)] for a, b in ((0, 9), (5, 3), (37, 11))])
        u = Uniform()

        def one(w, t):
            u.tape = t
            try:
                return resampling.continuous_resampling(jnp.asarray(x), w, m, key)
            finally:
                u.tape = None

        with patched(**stubs(u)):
            got = np.asarray(jax.jit(jax.vmap(jax.vmap(one, in_axes=[None, 0]), in_axes=[0, None]))(jnp.asarray(W), jnp.asarray(t2)))
        for a, w in enumerate(ws):
            sw = np.array(w)[order]
            cs = (2 * np.cumsum(sw) - sw) / (2. * G)  # exact: G is a power of two
            if len(set(cs.tolist())) < n:
                # equal nodes (zero weights): the inverse is ambiguous exactly at the node only, and no tape hits one
                keep = ~np.isin((t2 + np.arange(m)) / m, cs)
            else:
                keep = np.ones(t2.shape, bool)
            want = np.array([[interp_left(z, cs, x[order]) for z in (r + np.arange(m)) / m] for r in t2])
            case = dict(scheme='continuous', n=n, nsamples=m, weights=a)
            if ctx.ok(got[a].shape == want.shape, 'shape of the samples', case, got[a].shape):
                ctx.close('continuously resampled particles', got[a][keep], want[keep], 1e-8, rtol=1e-8, case=case)
            ctx.state(('continuous', n, m, a))
            ctx.trans(len(t2))
            ctx.trace(len(t2))
    ctx.sample(dict(n=n, weights=0))


def interp_left(z, cs, xs):
    k = int(np.searchsorted(cs, z, side='right'))
    if k == 0:
        return xs[0]
    if k == len(cs):
        return xs[-1]
    return xs[k - 1] + (xs[k] - xs[k - 1]) * (z - cs[k - 1]) / (cs[k] - cs[k - 1])


def interp(z, cs, xs):
    if z <= cs[0]:
        return float(xs[0])
    for k in range(1, len(cs)):
        if z <= cs[k]:
            return float(xs[k - 1] + (xs[k] - xs[k - 1]) * (z - cs[k - 1]) / (cs[k] - cs[k - 1]))
    return float(xs[-1])


def keys(ctx, tier, kind, n, G):
    """Without stubs: the guarantees that hold for every key, over a set of keys, and large numbers of particles."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    for n in (1, 2, 3, 7, 50, 257, 1000):
        i = np.arange(n)
        raw = np.where(i % 3 == 1, 0., (i * 7 % 11) + 1.)
        raw[-1] = 0. if n > 1 else 1.
        w = raw / raw.sum()
        for name in ('systematic', 'stratified', 'multinomial'):
            fn = jax.jit(getattr(resampling, name))
            prev = []
            for s in range(12):
                got = np.asarray(fn(jnp.asarray(w), jax.random.PRNGKey(s)))
                case = dict(scheme=name, n=n, key=s)
                ctx.ok(got.shape == (n,) and np.all((got >= 0) & (got < n)), 'shape or range', case)
                ctx.ok(np.all(w[got] > 0), 'a particle of zero weight is selected', case)
                c = np.bincount(got, minlength=n)
                if name == 'systematic':
                    ctx.ok(np.all((c >= np.floor(n * w - 1e-9)) & (c <= np.ceil(n * w + 1e-9))), 'number of copies', case)
                elif name == 'stratified':
                    ctx.ok(np.all(np.abs(c - n * w) < 2), 'number of copies', case)
                ctx.ok(np.array_equal(got, np.asarray(getattr(resampling, name)(jnp.asarray(w), jax.random.PRNGKey(s)))) if n < 60 else True, 'not a function of the key', case)
                prev.append(tuple(got))
                ctx.state((name, n, s))
                ctx.trans()
                ctx.trace()
            if n >= 50:
                ctx.ok(len(set(prev)) > 1, 'the key has no effect', dict(scheme=name, n=n))
        if n >= 50:
            x = np.sin(i * 1.7) * 5
            out = [np.asarray(resampling.continuous_resampling(jnp.asarray(x), jnp.asarray(w), n, jax.random.PRNGKey(s))) for s in range(3)]
            ctx.ok(len({tuple(o) for o in out}) == 3, 'the key has no effect on continuous resampling', dict(n=n))
    ctx.sample(dict(keys=12))
