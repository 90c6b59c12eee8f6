"""C07: multi-index bookkeeping, decided exactly by enumeration of all multi-indices within the bounds."""
import itertools
import math

import numpy as np

RULE = ('A state is one (d, lower, upper) collection together with one multi-index in it; transitions are the successor '
        'steps of the graded lexicographic order; every collection within the bounds is enumerated and every index is '
        'compared with an independently sorted reference enumeration.')
ASSUMPTIONS = ['exact integer arithmetic of Python and NumPy int64']

QUICK = dict(dims={1: 60, 2: 30, 3: 16, 4: 11, 5: 8, 6: 6, 7: 5, 8: 4, 9: 3, 10: 3},
             gh={1: 12, 2: 8, 3: 6, 4: 4, 5: 3, 6: 3, 7: 2, 8: 2})
THOROUGH = dict(dims={1: 120, 2: 60, 3: 26, 4: 16, 5: 12, 6: 9, 7: 7, 8: 6, 9: 5, 10: 4, 11: 4, 12: 3},
                gh={1: 20, 2: 14, 3: 8, 4: 6, 5: 5, 6: 4, 7: 3, 8: 3, 9: 2, 10: 2})


def cfg(tier):
    return QUICK if tier == 'quick' else THOROUGH


def bounds(tier):
    c = cfg(tier)
    return dict(order_bounds='all 0 <= lower <= upper <= K with K by dimension', K=c['dims'], gram_hankel_N_max=c['gh'])


def units(tier):
    c = cfg(tier)
    us = [(f'order d={d} K={K}', ['order', d, K], math.comb(K + d, d) * K) for d, K in c['dims'].items()]
    us += [(f'gram-hankel d={d} N={N}', ['gh', d, N], math.comb(N - 1 + d, d) ** 2 * d)
           for d, NN in c['gh'].items() for N in range(1, NN + 1)]
    us += [(f'extract d={d} N={N}', ['extract', d, N], math.comb(2 * N - 1 + d, d) * 4)
           for d, NN in c['gh'].items() for N in range(1, NN + 1)]
    us += [(f'sparse d={d}', ['sparse', d, 0], 400) for d in (2, 3, 5, 8, 12, 20)]
    us += [(f'windows d={d}', ['windows', d, 0], 400) for d in (2, 3, 4)]
    us += [('gram-hankel d=58 N=2', ['gh', 58, 2], 10 ** 6)]
    us += [('call sequences', ['calls', 3, 0], 500)]
    return us


def reference(d, upper, lower=0):
    """All d-dimensional multi-indices with lower <= sum <= upper, sorted by (sum, lexicographic)."""
    out = []
    for s in range(lower, upper + 1):
        # compositions of s in d parts by stars and bars
        for bars in itertools.combinations(range(s + d - 1), d - 1):
            prev, idx = -1, []
            for b in bars:
                idx.append(b - prev - 1)
                prev = b
            idx.append(s + d - 1 - prev - 1)
            out.append(tuple(idx))
    out.sort(key=lambda t: (sum(t), t))
    return out


def run_unit(ctx, tier, kind, d, K):
    {'order': order, 'gh': gram_hankel, 'extract': extract, 'sparse': sparse, 'windows': windows, 'calls': calls}[kind](ctx, tier, d, K)


def order(ctx, tier, d, K):
    from mfs.multi_dims import multi_indices as mi
    full = reference(d, K)
    for lower in range(K + 1):
        for upper in range(0, K + 1):
            if upper < lower:
                ctx.ok(mi.sizeof_multi_indices(d, upper, lower) == 0, 'size of an empty collection', (d, upper, lower))
                continue
            ref = [t for t in full if lower <= sum(t) <= upper]
            n = mi.sizeof_multi_indices(d, upper, lower)
            ctx.ok(n == len(ref), 'size of a collection', (d, upper, lower), f'{n} instead of {len(ref)}')
            if lower == 0:
                ctx.ok(mi.sizeof_multi_indices(d, upper) == len(ref), 'size with the default lower sum', (d, upper))
            got = np.asarray(mi.generate_graded_lexico_multi_indices(d, upper, lower))
            ok = ctx.ok(got.shape == (len(ref), d) and np.issubdtype(got.dtype, np.integer),
                        'shape and type of the generated collection', (d, upper, lower), (got.shape, got.dtype))
            if ok:
                bad = np.nonzero(np.any(got != np.array(ref).reshape(len(ref), d), axis=1))[0]
                ctx.ok(bad.size == 0, 'graded lexicographic enumeration', (d, upper, lower),
                       '' if not bad.size else f'position {bad[0]}: {got[bad[0]]} instead of {ref[bad[0]]}')
            for pos, t in enumerate(ref):
                ctx.state((d, lower, upper, t))
            ctx.trans(len(ref) - 1)
            ctx.trace()
        if d == 1:
            ctx.trace()
    got = np.asarray(mi.generate_graded_lexico_multi_indices(d, K))
    ctx.ok([tuple(r) for r in got.tolist()] == full, 'enumeration with the default lower sum', (d, K))
    # position <-> multi-index, for every lower sum
    for lower in range(K + 1):
        sel = [t for t in full if sum(t) >= lower]
        for pos, t in enumerate(sel):
            for form in ((list(t), t, np.array(t)) if lower == 0 else (t,)):
                g = mi.graded_lexico_indexof_multi_index(form, lower_sum=lower)
                ctx.ok(g == pos, 'position of a multi-index', dict(d=d, multi_index=t, lower=lower), f'{g} instead of {pos}')
            if lower == 0:
                ctx.ok(mi.graded_lexico_indexof_multi_index(t) == pos, 'position with the default lower sum', t)
    ctx.close('vectorised positions', mi.find_indices(np.array(full)), np.arange(len(full)), 0.1, case=(d, K))
    ctx.ok(int(mi.find_indices(list(full[-1]))) == len(full) - 1, 'vectorised position of a single multi-index', full[-1])
    ctx.outcomes.update(full)
    ctx.sample(dict(d=d, K=K, first=full[:4], last=full[-1]))


def rank(t):
    """Number of multi-indices before t in graded lexicographic order, by counting (exact integers)."""
    d, s = len(t), sum(t)
    n = math.comb(s - 1 + d, d) if s else 0
    left = s
    for i, v in enumerate(t[:-1]):
        k = d - i - 1  # coordinates to the right
        n += sum(math.comb(left - a + k - 1, k - 1) for a in range(v))
        left -= v
    return n


def sparse(ctx, tier, d, _):
    """Multi-indices far outside of what can be listed: all with at most two non-zero entries, from a set of small and large values."""
    from mfs.multi_dims import multi_indices as mi
    for t in reference(d, 3 if d < 10 else 2):
        ctx.ok(rank(t) == reference(d, sum(t)).index(t), 'counting formula against the listing (machinery)', t)
    vals = [1, 2, 7, 21, 60, 255, 300]
    seen = set()
    for i in range(d):
        for j in range(i, d):
            for a in vals:
                for b in [0] + vals if i != j else [0]:
                    t = [0] * d
                    t[i] += a
                    t[j] += b
                    t = tuple(t)
                    if t in seen:
                        continue
                    seen.add(t)
                    want = rank(t)
                    for lower in {0, 1, sum(t) // 2, sum(t)}:
                        w = want - (math.comb(lower - 1 + d, d) if lower else 0)
                        g = mi.graded_lexico_indexof_multi_index(t, lower_sum=lower)
                        ctx.ok(g == w, 'position of a multi-index', dict(d=d, multi_index=t, lower=lower), f'{g} instead of {w}')
                    if want < 2 ** 62:
                        g = int(mi.find_indices(np.array(t)))
                        ctx.ok(g == want, 'vectorised position', dict(d=d, multi_index=t), f'{g} instead of {want}')
                    ctx.state((d, t))
                    ctx.trans()
                    ctx.trace(2)
    for u in range(0, 301, 25):
        for l in range(0, u + 1, 25):
            w = math.comb(u + d, d) - (math.comb(l - 1 + d, d) if l else 0)
            ctx.ok(mi.sizeof_multi_indices(d, u, l) == w, 'size of a collection', (d, u, l), mi.sizeof_multi_indices(d, u, l))
    ctx.outcomes.update(seen)
    ctx.sample(dict(d=d, multi_index=[300] + [0] * (d - 1)))


def windows(ctx, tier, d, _):
    """Collections of a few consecutive large degrees."""
    from mfs.multi_dims import multi_indices as mi
    for lower, upper in {2: [(126, 131), (253, 260), (300, 300), (40, 41)], 3: [(30, 31), (126, 128)], 4: [(20, 21), (30, 30)]}[d]:
        ref = np.array(reference(d, upper, lower))
        got = np.asarray(mi.generate_graded_lexico_multi_indices(d, upper, lower))
        ctx.ok(mi.sizeof_multi_indices(d, upper, lower) == len(ref), 'size of a collection', (d, upper, lower))
        if ctx.ok(got.shape == ref.shape and np.issubdtype(got.dtype, np.integer), 'shape and type of the generated collection', (d, upper, lower), got.shape):
            ctx.close('graded lexicographic enumeration', got, ref, 0., case=(d, upper, lower))
        for pos in range(0, len(ref), 7):
            t = tuple(ref[pos].tolist())
            ctx.ok(mi.graded_lexico_indexof_multi_index(t, lower) == pos, 'position of a multi-index', dict(d=d, multi_index=t, lower=lower))
            ctx.state((d, t))
        ctx.trans(len(ref) - 1)
        ctx.trace()
        ctx.outcomes.add(len(ref))
    ctx.sample(dict(d=d))


def calls(ctx, tier, _, __):
    """All sequences of calls up to length 3, where the caller overwrites each result: results do not depend on the calls before."""
    from mfs.multi_dims import multi_indices as mi
    from mfs.one_dim.quadtures import hankel_indices
    ops = {f'generate {a}': (lambda a=a: mi.generate_graded_lexico_multi_indices(*a)) for a in [(1, 3), (2, 3), (2, 3, 1), (3, 2), (2, 3, 3), (3, 3)]}
    ops.update({f'gram hankel {a}': (lambda a=a: mi.gram_and_hankel_indices_graded_lexico(*a)) for a in [(2, 3), (3, 2), (2, 2), (2, 1)]})
    ops.update({f'hankel {n}': (lambda n=n: np.stack([np.asarray(v) for v in hankel_indices(n)])) for n in (2, 3)})
    ops.update({f'size {a}': (lambda a=a: mi.sizeof_multi_indices(*a)) for a in [(2, 3), (3, 2)]})
    ops.update({f'position {t} {l}': (lambda t=t, l=l: mi.graded_lexico_indexof_multi_index(t, l)) for t, l in [((1, 2), 0), ((2, 1), 0), ((1, 2), 2), ((0, 1, 2), 0)]})

    def ref(name):
        kind, arg = name.split(' (')[0].split(' ')[0], name
        if kind == 'generate':
            a = eval(name[len('generate '):])
            return np.array(reference(*a))
        if kind == 'gram' or kind == 'hankel':
            N, d = eval(name[len('gram hankel '):]) if kind == 'gram' else (int(name.split()[1]), 1)
            b = reference(d, N - 1)
            pos = {t: i for i, t in enumerate(reference(d, 2 * N - 1))}
            e = [tuple(int(i == k) for i in range(d)) for k in range(-1, d)]
            return np.array([[[pos[tuple(x + y + z for x, y, z in zip(p, q, r))] for q in b] for p in b] for r in e])
        if kind == 'size':
            d, u = eval(name[len('size '):])
            return len(reference(d, u))
        t, l = name[len('position '):].rsplit(' ', 1)
        t = eval(t)
        return rank(t) - (len(reference(len(t), int(l) - 1)) if int(l) else 0)

    want = {n: ref(n) for n in ops}
    names = list(ops)
    for w in itertools.product(names, repeat=3 if tier == 'thorough' else 2):
        seq = w if tier == 'thorough' else w + (w[0],)
        for k, n in enumerate(seq):
            g = ops[n]()
            ctx.close('result after earlier calls', g, want[n], 0., case=dict(calls=seq[:k + 1]))
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g[...] = -7
        ctx.state(seq)
        ctx.trans(len(seq))
        ctx.trace()
    ctx.sample(dict(calls=seq))


def gram_hankel(ctx, tier, d, N):
    from mfs.multi_dims import multi_indices as mi
    basis = reference(d, N - 1)
    pos = {t: i for i, t in enumerate(reference(d, 2 * N - 1))}
    inds = np.asarray(mi.gram_and_hankel_indices_graded_lexico(N, d))
    s = len(basis)
    if not ctx.ok(inds.shape == (d + 1, s, s) and np.issubdtype(inds.dtype, np.integer), 'shape of the index matrices',
                  (d, N), (inds.shape, inds.dtype)):
        return
    want = np.zeros((d + 1, s, s), dtype='int64')
    for i, a in enumerate(basis):
        for j, b in enumerate(basis):
            t = tuple(x + y for x, y in zip(a, b))
            want[0, i, j] = pos[t]
            for k in range(d):
                u = list(t)
                u[k] += 1
                want[k + 1, i, j] = pos[tuple(u)]
            ctx.state((d, N, i, j))
    ctx.trans((d + 1) * s * s)
    ctx.trace()
    ctx.close('index matrices of Gram and Hankel', inds, want, 0.1,
              describe=lambda ix: dict(d=d, N=N, matrix=int(ix[0]), row=basis[ix[1]], column=basis[ix[2]]))
    import mfs.multi_dims as pkg
    ctx.close('package level export', pkg.gram_and_hankel_indices_graded_lexico(N, d), want, 0.1)
    if d == 1:
        from mfs.one_dim.quadtures import hankel_indices
        G, H = hankel_indices(N)
        ctx.close('one-dimensional Hankel indices', G, want[0], 0.1, case=N)
        ctx.close('one-dimensional shifted Hankel indices', H, want[1], 0.1, case=N)
    ctx.outcomes.update(want.ravel().tolist())
    ctx.sample(dict(d=d, N=N, gram_row0=want[0, 0].tolist()))


def extract(ctx, tier, d, N):
    import jax.numpy as jnp
    from mfs.multi_dims import moments as mo
    ref = reference(d, 2 * N - 1)
    z = len(ref)
    # An injective labelling: the moment array holds its own positions, so every extraction reveals where it read.
    base = np.arange(z, dtype='float64') + 0.25
    stacked = np.stack([base, base + 10. ** 4, -base])
    deep = np.stack([stacked, stacked + 10. ** 6])
    pos = {t: i for i, t in enumerate(ref)}
    for arr in (base, stacked, deep, jnp.asarray(base), jnp.asarray(stacked)):
        a = np.asarray(arr)
        for t in ref:
            for form in (list(t), t, np.array(t)):
                ctx.close('extracted moment', mo.extract_moments(arr, form), a[..., pos[t]], 0., case=dict(d=d, N=N, multi_index=t))
            ctx.state((d, N, a.ndim, t))
            ctx.trans()
        eye = np.eye(d, dtype=int)
        want = np.stack([a[..., pos[tuple(eye[i])]] for i in range(d)], axis=-1)
        ctx.close('extracted mean', mo.extract_mean(arr, d), want, 0., case=(d, N))
        if N >= 2:
            want = np.stack([np.stack([a[..., pos[tuple(eye[i] + eye[j])]] for j in range(d)], axis=-1)
                             for i in range(d)], axis=-2)
            ctx.close('extracted covariance', mo.extract_cov(arr, d), want, 0., case=(d, N))
        for k in range(d):
            want = np.stack([a[..., pos[tuple(n * eye[k])]] for n in range(2 * N)], axis=-1)
            ctx.close('marginal moments', mo.marginalise_moments(arr, d, N, k), want, 0., case=(d, N, k))
        ctx.trace()
    ctx.outcomes.update(range(z))
    ctx.sample(dict(d=d, N=N, z=z))
