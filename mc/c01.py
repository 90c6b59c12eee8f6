"""C01: the 1D moment filters are exact on finite-support models, for every observation history."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import hmm
from mc.common import FLOAT_TRUST, fl, words

RULE = ('A state is the exact rational posterior over the atoms after one observation history; transitions are '
        'observations. All histories over a 3-symbol alphabet up to the horizon are explored for every model, mode, '
        'number of moments and stability flag, and the filter output at every prefix is compared with the exact state.')
ASSUMPTIONS = [FLOAT_TRUST, 'models with at most N atoms and well separated atoms, so that 2N moments determine the posterior']


def cfg(tier):
    return dict(T=5, N=[1, 2, 3, 4, 5], TL=40) if tier == 'quick' else dict(T=7, N=[1, 2, 3, 4, 5, 6], TL=120)


def bounds(tier):
    c = cfg(tier)
    return dict(history_length=c['T'], alphabet=3, N=c['N'], periodic_history_length=c['TL'], periods='all words of length 1..3',
                modes=['raw', 'central', 'scaled'], stable=[False, True])


def units(tier):
    us = []
    for N in cfg(tier)['N']:
        for mode in ('raw', 'central', 'scaled'):
            if mode == 'scaled' and N == 1:
                continue  # a single atom has no scale
            for stable in (False, True):
                us.append((f'tree N={N} {mode} stable={stable}', ['tree', N, mode, stable], 10 + 4 * N))
                us.append((f'forms N={N} {mode} stable={stable}', ['forms', N, mode, stable], 6 + N))
                us.append((f'long N={N} {mode} stable={stable}', ['long', N, mode, stable], 3 + 2 * N))
            us.append((f'units of measurement N={N} {mode}', ['homog', N, mode, False], 8 + 2 * N))
            if N > 1 and not (mode == 'scaled' and N == 2):
                us.append((f'fewer atoms than nodes N={N} {mode}', ['degenerate', N, mode, True], 8 + 3 * N))
    return us


def supports(N):
    asym = {1: ['3/10'], 2: ['-1/2', '7/10'], 3: ['-1', '1/4', '6/5'], 4: ['-1', '-1/4', '1/2', '5/4'],
            5: ['-6/5', '-1/2', '1/10', '7/10', '7/5'], 6: ['-8/5', '-9/10', '-3/10', '2/5', '1', '8/5']}[N]
    sym = {1: ['0'], 2: ['-1', '1'], 3: ['-1', '0', '1'], 4: ['-3/2', '-1/2', '1/2', '3/2'],
           5: ['-3/2', '-3/4', '0', '3/4', '3/2'], 6: ['-5/3', '-1', '-1/3', '1/3', '1', '5/3']}[N]
    return [Fr(a) for a in asym], [Fr(a) for a in sym]


def models(N, mode):
    asym, sym = supports(N)
    out = []

    def add(name, atoms, init, P, L):
        out.append(hmm.Model(name, atoms, hmm.weights(N, init), hmm.rows(N, P), hmm.likelihoods(N, L)))

    add('asym mix', asym, 'ramp', 'mix', 'plain')
    add('sym mix scaled-likelihood', sym, 'flat', 'mix', 'scaled')
    add('asym permutation', asym, 'bump', 'perm', 'plain')
    add('sym static flat-symbol', sym, 'ramp', 'static', 'flat')
    add('asym sticky', asym, 'flat', 'sticky', 'scaled')
    shift = Fr(1, 2) if mode == 'raw' else Fr(-9)
    add('shifted mix', [a + shift for a in asym], 'bump', 'mix', 'plain')
    if mode != 'raw':
        add('narrow mix', [a / (1000 if mode == 'scaled' else 10) + Fr(1, 4) for a in asym], 'ramp', 'mix', 'flat')
        add('wide permutation', [a * (50 if mode == 'scaled' else 4) - 3 for a in asym], 'ramp', 'perm', 'plain')
    add('asym independent', asym, 'ramp', 'independent', 'plain')
    return out


def params(model):
    import jax.numpy as jnp
    return dict(atoms=jnp.array(fl(model.atoms)), P=jnp.array(fl(model.P)), L=jnp.array(fl(model.L)))


def callbacks(par, snap, vec_y):
    import jax.numpy as jnp
    atoms, P, L = par['atoms'], par['P'], par['L']
    s = atoms.shape[0]

    def basis(x):
        """(..., ) -> (..., s): Lagrange basis polynomials at the atoms, or the indicator of the nearest atom."""
        x = jnp.asarray(x)
        if snap:
            return jnp.asarray(jnp.argmin(jnp.abs(x[..., None] - atoms), axis=-1)[..., None] == jnp.arange(s), 'float64')
        cols = []
        for j in range(s):
            c = jnp.ones_like(x)
            for k in range(s):
                if k != j:
                    c = c * (x - atoms[k]) / (atoms[j] - atoms[k])
            cols.append(c)
        return jnp.stack(cols, axis=-1)

    def raw(x, n):
        return basis(x) @ P @ (atoms[:, None] ** n)

    def central(x, n, mean):
        return basis(x) @ P @ ((atoms[:, None] - mean) ** n)

    def scaled(x, n, mean, scale):
        return basis(x) @ P @ (((atoms[:, None] - mean) / scale) ** n)

    def cmean(x):
        return basis(x) @ P @ atoms

    def cmean_var(x):
        B = basis(x) @ P
        m = B @ atoms
        return m, B @ atoms ** 2 - m ** 2

    def pdf(y, x):
        k, one = hmm.decode(y[1] if vec_y else y)
        return basis(x) @ L[k] * (jnp.where(y[0] == 0.7, one, jnp.nan) if vec_y else one)

    c = par.get('origin')
    if c is None:
        return raw, central, scaled, cmean, cmean_var, pdf
    # the same model in coordinates with another origin
    return (None, lambda x, n, mean: central(x - c, n, mean - c), lambda x, n, mean, scale: scaled(x - c, n, mean - c, scale),
            lambda x: cmean(x - c) + c, lambda x: (cmean(x - c) + c, cmean_var(x - c)[1]), lambda y, x: pdf(y, x - c))


def run_filter(mode, stable, par, init, ys, snap=False, vec_y=False):
    from mfs.one_dim.filtering import moment_filter_cms, moment_filter_rms, moment_filter_scms
    raw, central, scaled, cmean, cmean_var, pdf = callbacks(par, snap, vec_y)
    if mode == 'raw':
        return moment_filter_rms(raw, pdf, init['rms'], ys, stable=stable)
    if mode == 'central':
        return moment_filter_cms(central, cmean, pdf, init['cms'], init['mean'], ys, stable=stable)
    return moment_filter_scms(scaled, cmean_var, pdf, init['scms'], init['mean'], init['scale'], ys, stable=stable)


def init_of(model, m):
    import jax.numpy as jnp
    r, mean, c, scale, sc = hmm.summary_1d(model.atoms, model.init, m)
    return dict(rms=jnp.array(r), mean=jnp.asarray(mean), cms=jnp.array(c), scale=jnp.asarray(scale), scms=jnp.array(sc))


TOL = {1: 1e-11, 2: 1e-11, 3: 1e-10, 4: 1e-9, 5: 1e-8, 6: 1e-7}


def compare(ctx, mode, N, m, model, out, expected, ws, label, tol_factor=1., tol=None, tol_ll=None):
    """out: batched over words; expected[w] = list over time of (posterior, ll)."""
    T = len(ws[0]) if ws else 0
    tol = TOL[N] * tol_factor if tol is None else tol
    tol_ll = tol_ll or tol * 10
    spread = float(max(model.atoms) - min(model.atoms)) or 1.
    summ = [[hmm.summary_1d(model.atoms, p, m) for p, _ in expected[w]] for w in ws]
    B = len(ws)
    ns = np.arange(m)

    def arr(k, tail=()):
        return np.array([[summ[b][t][k] for t in range(T)] for b in range(B)], dtype='float64').reshape((B, T) + tail)

    def desc(i):
        return dict(model=model.name, N=N, mode=mode, history=ws[i[0]], time=int(i[1]) + 1 if len(i) > 1 else T)

    if mode == 'raw':
        big = float(max(abs(a) for a in model.atoms)) or 1.
        ctx.close(f'{label}: filtering raw moments', out[0], arr(0, (m,)), tol * np.maximum(big, 1e-3) ** ns + tol, describe=desc)
    elif mode == 'central':
        ctx.close(f'{label}: filtering central moments', out[0], arr(2, (m,)), tol * spread ** ns, describe=desc)
        ctx.close(f'{label}: filtering means', out[1], arr(1), tol * spread, rtol=1e-12, describe=desc)
    else:
        scales = arr(3)
        ctx.close(f'{label}: filtering scaled central moments', out[0], arr(4, (m,)),
                  tol * (spread / scales[..., None]) ** ns, describe=desc)
        ctx.close(f'{label}: filtering means', out[1], arr(1), tol * spread, rtol=1e-12, describe=desc)
        ctx.close(f'{label}: filtering scales', out[2], scales, tol * spread, describe=desc)
    nll = np.array([-expected[w][-1][1] if T else 0. for w in ws])
    ctx.close(f'{label}: negative log likelihood', out[-1], nll, tol_ll, rtol=1e-13, describe=desc)
    ctx.trace(B)


def degenerate(ctx, tier, N, mode):
    """The state lives on fewer atoms than the filter has nodes (singular Hankel matrices): stable=True must still be exact, up to the
    accuracy of the completion. Includes symbols that exclude atoms."""
    import jax
    import jax.numpy as jnp
    T, m = 4, 2 * N
    ws = words(range(3), T)
    mods = []
    for S in range(1, N):
        if mode == 'scaled' and S == 1:
            continue
        for name, sup in zip(('asym', 'sym'), supports(S)):
            for P in ('mix', 'perm', 'static'):
                mods.append((S, hmm.Model(f'{S} atoms {name} {P}', sup, hmm.weights(S, 'ramp'), hmm.rows(S, P), hmm.likelihoods(S, 'plain'))))
        if S > 1 and (mode != 'scaled' or S > 2):
            # symbol 0 excludes the last atom, symbol 1 the first one; at least two atoms stay for the scaled representation
            L = hmm.likelihoods(S, 'plain')
            L = [L[0][:-1] + [Fr(0)], [Fr(0)] + L[1][1:], L[2]]
            mods.append((S, hmm.Model(f'{S} atoms, excluding symbols', supports(S)[0], hmm.weights(S, 'flat'), hmm.rows(S, 'mix'), L)))
    if mode != 'scaled' or N > 2:
        L = hmm.likelihoods(N, 'plain')
        L = [L[0][:-1] + [Fr(0)], [Fr(0)] + L[1][1:], L[2]]
        mods.append((N, hmm.Model(f'{N} atoms, excluding symbols', supports(N)[0], hmm.weights(N, 'flat'), hmm.rows(N, 'mix'), L)))
    for S, mod in mods:
        tree = hmm.explore(mod, T, ctx, (N, 'degenerate'))
        exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
        par, ini = params(mod), init_of(mod, m)
        out = jax.jit(jax.vmap(lambda y: run_filter(mode, True, par, ini, y, snap=True)))(jnp.array(ws, dtype='float64'))
        out = [np.asarray(o) for o in out]
        # A completed rule can have a spurious far node of rounding weight (1e-17, say): moments of higher orders are not compared.
        ctx.ok(np.all(np.isfinite(out[0])), 'fewer atoms than nodes: moments are not finite', mod.name)
        out[0] = out[0][..., :3]
        compare(ctx, mode, N, 3, mod, out, exp, ws, 'fewer atoms than nodes', tol=1e-5, tol_ll=1e-7)
        ctx.outcomes.update(np.round(np.asarray(out[-1]), 9).tolist())
    ctx.sample(dict(N=N, model=mods[0][1].name if mods else None))


def homogeneous(ctx, tier, N, mode, ms):
    """The state in other units (powers of two, exact in floats), and with another origin."""
    import jax
    import jax.numpy as jnp
    m, T = 2 * N, 3
    ws = words(range(3), T)
    ys = jnp.array(hmm.encode(ws))
    n = np.arange(m)
    fs = {st: jax.jit(jax.vmap(lambda par, ini, y, st=st: run_filter(mode, st, par, ini, y), in_axes=(None, None, 0))) for st in (False, True)}
    for mod in (ms[0], ms[2]):
        tree = hmm.explore(mod, T, ctx, (N, 'units'))
        exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
        for k in (-40, -16, -8, 8, 16, 40):
            D = 2. ** k
            par, ini = params(mod), init_of(mod, m)
            par['atoms'] = par['atoms'] * D
            ini = dict(rms=ini['rms'] * D ** n, cms=ini['cms'] * D ** n, mean=ini['mean'] * D, scale=ini['scale'] * D, scms=ini['scms'])
            for st, f in fs.items():
                out = [np.asarray(o) for o in f(par, ini, ys)]
                if mode == 'raw':
                    out[0] = out[0] / D ** n
                else:
                    out[1] = out[1] / D
                    if mode == 'central':
                        out[0] = out[0] / D ** n
                    else:
                        out[2] = out[2] / D
                compare(ctx, mode, N, m, mod, out, exp, ws, f'units of measurement 2^{k}')
        for c in (2. ** 14, -2. ** 18) if mode != 'raw' else ():
            ini = init_of(mod, m)
            ini['mean'] = ini['mean'] + c
            for st, f in fs.items():
                out = [np.asarray(o) for o in f(dict(params(mod), origin=c), ini, ys)]
                out[1] = out[1] - c
                # the state is known to the spacing of the numbers near c
                compare(ctx, mode, N, m, mod, out, exp, ws, f'origin at {c}', tol=1e3 * TOL[N] + 4 ** N * 1e-15 * abs(c), tol_ll=1e3 * TOL[N] + 4 ** N * 1e-14 * abs(c))
    ctx.sample(dict(N=N, mode=mode, powers_of_two=40))


def run_unit(ctx, tier, kind, N, mode, stable):
    import jax
    import jax.numpy as jnp
    c = cfg(tier)
    ms = models(N, mode)
    m = 2 * N

    def stack(trees):
        return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *trees)

    if kind == 'degenerate':
        degenerate(ctx, tier, N, mode)
    elif kind == 'homog':
        homogeneous(ctx, tier, N, mode, ms)
    elif kind == 'tree':
        T = c['T'] if N <= 4 else c['T'] - 1
        ws = words(range(3), T)
        exp = []
        for mod in ms:
            tree = hmm.explore(mod, T, ctx, (N,))
            exp.append({w: [tree[w[:t + 1]] for t in range(T)] for w in ws})
        ys = jnp.array(hmm.encode(ws))
        f = jax.jit(jax.vmap(jax.vmap(lambda par, ini, y: run_filter(mode, stable, par, ini, y), in_axes=(None, None, 0)),
                             in_axes=(0, 0, None)))
        out = f(stack([params(mod) for mod in ms]), stack([init_of(mod, m) for mod in ms]), ys)
        for i, mod in enumerate(ms):
            compare(ctx, mode, N, m, mod, [np.asarray(o[i]) for o in out], exp[i], ws, 'all histories')
            ctx.outcomes.update(np.round(np.asarray(out[-1][i]), 9).tolist())
        w = ws[len(ws) // 2]
        ctx.sample(dict(model=ms[0].name, history=w, posterior=[str(p) for p in exp[0][w][-1][0]][:N], nll=-exp[0][w][-1][1]))
    elif kind == 'long':
        per = [w for k in (1, 2, 3) for w in words(range(3), k)]
        T = c['TL']
        ws = sorted({tuple(itertools.islice(itertools.cycle(w), T)) for w in per})
        f = jax.jit(jax.vmap(lambda par, ini, y: run_filter(mode, stable, par, ini, y, snap=True), in_axes=(None, None, 0)))
        # 'scaled' likelihoods reach exp(-13000) over the whole history
        for mod in [ms[0], ms[2], ms[4]]:
            if mod.P[0][0] in (0, 1):
                # static or deterministic transitions concentrate the posterior on fewer atoms over long histories
                if N > 2:
                    continue
                ww = [w for w in ws if len(set(w)) > 1][:6] if N > 1 else ws
            else:
                ww = ws
            exp = {w: hmm.run_word(mod, w) for w in ww}
            if min(min(p) for w in ww for p, _ in exp[w]) < Fr(1, 200):
                ww = [w for w in ww if min(min(p) for p, _ in exp[w]) >= Fr(1, 200)]
                if not ww:
                    continue
            for w in ww:
                for p, _ in exp[w]:
                    ctx.state((mod.name, tuple(round(float(v), 12) for v in p)))
                ctx.trans(T)
            out = f(params(mod), init_of(mod, m), jnp.array(hmm.encode(ww)))
            compare(ctx, mode, N, m, mod, [np.asarray(o) for o in out], exp, ww, 'long histories')
            ctx.outcomes.update(np.round(np.asarray(out[-1]), 9).tolist())
        # very long histories
        mod = ms[0]
        exp = {w: hmm.run_word(mod, w, 400) for w in hmm.very_long_words()}
        ww = [w for w in exp if min(min(p) for p, _ in exp[w]) >= Fr(1, 200)]
        if ww:
            out = f(params(mod), init_of(mod, m), jnp.array(hmm.encode(ww)))
            compare(ctx, mode, N, m, mod, [np.asarray(o) for o in out], exp, ww, 'very long histories')
            ctx.state((mod.name, 'very long'))
            ctx.trans(len(ww) * len(ww[0]))
        ctx.sample(dict(N=N, T=T, period=per[5]))
    else:
        # Other forms of the same inputs: lengths 0, 1, 2, 3, integer and vector measurements, an additional even-order
        # moment, eager and traced execution.
        mod = ms[0]
        ini = init_of(mod, m)
        par = params(mod)
        tree = hmm.explore(mod, 3, ctx, ('forms', N))
        for T in (0, 1, 2, 3):
            ws = words(range(3), T)
            exp = {w: [tree[w[:t + 1]] for t in range(T)] for w in ws}
            f = jax.jit(jax.vmap(lambda y: run_filter(mode, stable, par, ini, y)))
            out = f(jnp.array(hmm.encode(ws)).reshape(len(ws), T))
            if T == 0:
                for o in out[:-1]:
                    ctx.ok(o.shape[:2] == (1, 0), 'no measurement, no output', T, o.shape)
                ctx.close('no measurement, no likelihood', out[-1], np.zeros(1), 1e-15)
                ctx.trace()
            else:
                compare(ctx, mode, N, m, mod, [np.asarray(o) for o in out], exp, ws, f'length {T}')
        ws = words(range(3), 3)
        exp = {w: [tree[w[:t + 1]] for t in range(3)] for w in ws}
        out = jax.jit(jax.vmap(lambda y: run_filter(mode, stable, par, ini, y)))(jnp.array(ws, dtype='int32'))
        compare(ctx, mode, N, m, mod, [np.asarray(o) for o in out], exp, ws, 'integer measurements')
        out = jax.jit(jax.vmap(lambda y: run_filter(mode, stable, par, ini, y, vec_y=True)))(
            jnp.stack([jnp.full((len(ws), 3), 0.7), jnp.array(hmm.encode(ws))], axis=-1))
        compare(ctx, mode, N, m, mod, [np.asarray(o) for o in out], exp, ws, 'vector measurements')
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if not (mode == 'scaled' and N == 1):
                ini1 = init_of(mod, m + 1)
                out = jax.jit(jax.vmap(lambda y: run_filter(mode, stable, par, ini1, y)))(jnp.array(ws, dtype='float64'))
                compare(ctx, mode, N, m + 1, mod, [np.asarray(o) for o in out], exp, ws, 'odd number of moments', 10.)
        # eager, one history at a time; positional/default flag
        ws = ws[5::9]
        outs = [run_filter(mode, stable, par, ini, jnp.array(w, dtype='float64')) for w in ws]
        out = [np.stack([np.asarray(o[k]) for o in outs]) for k in range(len(outs[0]))]
        compare(ctx, mode, N, m, mod, out, exp, ws, 'eager')
        # python floats and 1-element initial scalars
        ini2 = dict(ini, mean=float(ini['mean']), scale=float(ini['scale']))
        outs = [run_filter(mode, stable, par, ini2, jnp.array(w, dtype='float64')) for w in ws]
        out = [np.stack([np.asarray(o[k]) for o in outs]) for k in range(len(outs[0]))]
        compare(ctx, mode, N, m, mod, out, exp, ws, 'python float initial values')
        ctx.outcomes.update(np.round(out[-1], 9).tolist())
        ctx.sample(dict(N=N, mode=mode, stable=stable, history=ws[0]))
