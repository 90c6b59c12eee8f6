"""C11: the Kalman filter and the RTS smoother are exact conditioning of the joint Gaussian, for every measurement history."""
import itertools
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc import lingauss as lg
from mc.hmm import very_long_words
from mc.common import FLOAT_TRUST, fl, words

RULE = ('A state is the exact Gaussian posterior (rational mean and covariance of all x_1..x_t, and log-likelihood) after one measurement '
        'history; transitions are measurements. All histories over the alphabet up to the horizon are explored for every model and pair of '
        'dimensions, and the filter, the cumulative negative log-likelihood and the smoother are compared at every step.')
ASSUMPTIONS = [FLOAT_TRUST, 'linear-Gaussian models with invertible predictive covariances']


def cfg(tier):
    if tier == 'quick':
        return dict(T={1: 5, 2: 4, 3: 3}, dims=[1, 2, 3], TL=40)
    return dict(T={1: 7, 2: 5, 3: 4}, dims=[1, 2, 3], TL=150)


def bounds(tier):
    c = cfg(tier)
    return dict(history_length_by_dx=c['T'], alphabet=3, outlier_alphabet=4, dx=c['dims'], dy=c['dims'], long_history=c['TL'], models_per_shape=7)


def alphabet(dy):
    """Doubles that are not all single-precision numbers."""
    return [tuple([Fr(0), Fr(0), Fr(0)][:dy]), tuple([Fr(3, 2) + Fr(1, 2 ** 24), Fr(-1) + Fr(1, 2 ** 27), Fr(1, 4)][:dy]), tuple([Fr(-2), Fr(1, 2), Fr(5)][:dy])]


def far_alphabet(dy):
    """Measurements of very different sizes: an outlier is conditioned on like any other measurement."""
    return [tuple([Fr(1, 2 ** 20)] * dy), tuple([Fr(1000) + Fr(1, 2 ** 20), Fr(-30) - Fr(1, 2 ** 23), Fr(6)][:dy]), tuple([Fr(-25), Fr(400), Fr(-12)][:dy]), tuple([Fr(9), Fr(-7), Fr(10 ** 5)][:dy])]


def all_models(dx, dy):
    ms = lg.models(dx, dy)
    return ms + [lg.scaled(ms[0], Fr(1, 100)), lg.scaled(ms[1], Fr(50))]


def units(tier):
    return [(f'{k} dx={dx} dy={dy}', [k, dx, dy], 4 + dx * dy) for dx in cfg(tier)['dims'] for dy in cfg(tier)['dims'] for k in ('tree', 'outliers', 'long', 'units of measurement')]


def run_unit(ctx, tier, kind, dx, dy):
    {'tree': tree, 'outliers': lambda *a: tree(*a, far=True), 'long': long, 'units of measurement': in_units}[kind](ctx, tier, dx, dy)


def params(m):
    import jax.numpy as jnp
    return [jnp.asarray(fl(a)) for a in (m.F, m.S, m.H, m.X, m.m0, m.v0)]


def scale_of(m):
    return float(max(max(abs(v) for r in M for v in r) for M in (m.S, m.X, m.v0))) ** 0.5 + float(max(abs(v) for v in m.m0))


def tree(ctx, tier, dx, dy, far=False):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import kf, rts
    T = cfg(tier)['T'][dx] - (2 if far and dx < 3 else 1 if far else 0)
    A = far_alphabet(dy) if far else alphabet(dy)
    hist = words(range(len(A)), T)
    ymax = float(max(abs(v) for a in A for v in a)) if far else 0.
    ys = jnp.asarray(np.array([[[float(v) for v in A[i]] for i in w] for w in hist]))
    run = jax.jit(jax.vmap(lambda F, S, H, X, m, v, y: kf(F, S, H, X, m, v, y), in_axes=[None] * 6 + [0]))
    smooth = jax.jit(jax.vmap(lambda F, S, a, b: rts(F, S, a, b), in_axes=[None, None, 0, 0]))
    for model in all_models(dx, dy):
        p = params(model)
        mf, vf, nl = [np.asarray(a) for a in run(*p, ys)]
        ms, vs = [np.asarray(a) for a in smooth(p[0], p[1], mf, vf)]
        sc = 1 + scale_of(model)
        case = dict(model=model.name, dx=dx, dy=dy)
        if far:
            case['letters'] = A
        wm, wv, wn = np.zeros_like(mf), np.zeros_like(vf), np.zeros_like(nl)
        last, cov_last = None, None
        for t in range(1, T + 1):
            at, cov = model.posterior(t)
            wv[:, t - 1] = fl(cov[-1])
            memo = {}
            for k, w in enumerate(hist):
                if w[:t] not in memo:
                    mm, nll = at([A[i] for i in w[:t]])
                    memo[w[:t]] = (fl(mm[-1]), float(nll), fl(mm) if t == T else None)
                    ctx.state((model.name, dx, dy, w[:t], far))
                    ctx.trans()
                wm[k, t - 1], wn[k, t - 1] = memo[w[:t]][:2]
            last, cov_last = memo, cov
        d = lambda i: dict(case, history=hist[i[0]], step=i[1])
        ctx.ok(mf.shape == (len(hist), T, dx) and vf.shape == (len(hist), T, dx, dx) and nl.shape == (len(hist), T), 'shapes', case, (mf.shape, vf.shape, nl.shape))
        ctx.close('filtering mean', mf, wm, 1e-11 * (sc + ymax), rtol=1e-11, case=case, describe=d)
        ctx.close('filtering covariance', vf, wv, 1e-11 * sc ** 2, case=case, describe=d)
        ctx.close('negative log-likelihood', nl, wn, 1e-10, rtol=1e-11, case=case, describe=d)
        ctx.close('smoothing mean', ms, np.array([last[w][2] for w in hist]), 1e-9 * (sc + ymax), rtol=1e-10, case=case, describe=d)
        ctx.close('smoothing covariance', vs, np.broadcast_to(fl(cov_last), vs.shape), 1e-9 * sc ** 2, case=case, describe=d)
        ctx.trace(len(hist))
        ctx.outcomes.update(np.round(mf[:, -1, 0], 9).tolist())
        # eager, and T = 1
        k = len(hist) // 2
        e = kf(*p, ys[k])
        for a, b, n in zip(e, (wm[k], wv[k], wn[k]), ('mean', 'covariance', 'nll')):
            ctx.close(f'filter ({n}, eager)', a, b, 1e-10 * (sc ** 2 + ymax), rtol=1e-11, case=case)
        e = kf(*p, ys[k, :1])
        s = rts(p[0], p[1], e[0], e[1])
        ctx.close('one measurement', np.concatenate([np.ravel(v) for v in (*e, *s)]),
                  np.concatenate([np.ravel(v) for v in (wm[k, :1], wv[k, :1], wn[k, :1], wm[k, :1], wv[k, :1])]), 1e-10 * (sc ** 2 + ymax), rtol=1e-11, case=case)
        ctx.trace(2)
    ctx.sample(dict(dx=dx, dy=dy, history=hist[-1]))


def in_units(ctx, tier, dx, dy):
    """State and measurements in other units (powers of two, exact in floats): no variance is large or small in itself."""
    import jax
    import jax.numpy as jnp
    from mc.c12 import scales
    from mfs.classical_filters_smoothers.gfs import kf, rts
    T, A = 3, alphabet(dy)
    hist = words(range(3), T)
    ys = np.array([[[float(v) for v in A[i]] for i in w] for w in hist])
    run = jax.jit(jax.vmap(lambda F, S, H, X, m, v, y: kf(F, S, H, X, m, v, y), in_axes=[None] * 6 + [0]))
    smooth = jax.jit(jax.vmap(lambda F, S, a, b: rts(F, S, a, b), in_axes=[None, None, 0, 0]))
    for model in lg.models(dx, dy):
        p = [np.asarray(v) for v in params(model)]
        wm, wv, wn = np.zeros((len(hist), T, dx)), np.zeros((T, dx, dx)), np.zeros((len(hist), T))
        for t in range(1, T + 1):
            at, cov = model.posterior(t)
            wv[t - 1] = fl(cov[-1])
            for k, w in enumerate(hist):
                mm, nll = at([A[i] for i in w[:t]])
                wm[k, t - 1], wn[k, t - 1] = fl(mm[-1]), float(nll)
                ctx.state((model.name, dx, dy, w[:t]))
        sm = np.array([fl(at([A[i] for i in w])[0]) for w in hist])
        for D, E, c, e, name in scales(dx, dy):
            if c.any() or e.any():  # a linear model keeps its origin
                continue
            DD, EE = D[:, None] * D, E[:, None] * E
            q = [p[0] * D[:, None] / D, p[1] * DD, p[2] * E[:, None] / D, p[3] * EE, p[4] * D, p[5] * DD]
            q = list(map(jnp.asarray, q))
            mf, vf, nl = [np.asarray(v) for v in run(*q, jnp.asarray(ys * E))]
            ms, vs = [np.asarray(v) for v in smooth(q[0], q[1], mf, vf)]
            case = dict(model=model.name, dx=dx, dy=dy, powers_of_two=name)
            d = lambda i: dict(case, history=hist[i[0]], step=i[1])
            ctx.close('filtering mean (other units)', mf / D, wm, 1e-10, rtol=1e-10, describe=d)
            ctx.close('filtering covariance (other units)', vf / DD, np.broadcast_to(wv, vf.shape), 1e-10, describe=d)
            ctx.close('negative log-likelihood (other units)', nl - np.log(E).sum() * np.arange(1, T + 1), wn, 1e-10, rtol=1e-10, describe=d)
            ctx.close('smoothing mean (other units)', ms / D, sm, 1e-9, rtol=1e-9, describe=d)
            ctx.close('smoothing covariance (other units)', vs / DD, np.broadcast_to(fl(cov), vs.shape), 1e-9, describe=d)
            ctx.trans(len(hist) * T)
            ctx.trace(len(hist))
    ctx.sample(dict(dx=dx, dy=dy, powers_of_two=name))


def long(ctx, tier, dx, dy):
    """Long periodic histories, all periods up to 3, against a 60-digit Kalman recursion that is checked against conditioning first."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import kf, rts
    A = alphabet(dy)
    periods = [w for L in (1, 2, 3) for w in words(range(3), L)]
    run = jax.jit(jax.vmap(lambda F, S, H, X, m, v, y: kf(F, S, H, X, m, v, y), in_axes=[None] * 6 + [0]))
    smooth = jax.jit(jax.vmap(lambda F, S, a, b: rts(F, S, a, b), in_axes=[None, None, 0, 0]))
    mm = lambda M: mp.matrix([[mp.mpf(v.numerator) / v.denominator for v in r] for r in M])
    to = lambda M: np.array([[float(M[i, j]) for j in range(M.cols)] for i in range(M.rows)])
    periodic = [tuple(w[i % len(w)] for i in range(cfg(tier)['TL'])) for w in periods]
    jobs = [(model, periodic) for model in (all_models(dx, dy)[:3] if tier == 'quick' else all_models(dx, dy))]
    jobs += [(all_models(dx, dy)[0], very_long_words()[:2]), (lg.unstable(dx, dy), very_long_words()[1:])]
    for model, hist in jobs:
        T = len(hist[0])
        ys = jnp.asarray(np.array([[[float(v) for v in A[i]] for i in w] for w in hist]))
        F, S, H, X, v0 = (mm(a) for a in (model.F, model.S, model.H, model.X, model.v0))
        m0 = mm([[v] for v in model.m0])
        gains, vps, vfs, Ss = [], [], [], []
        v = v0
        for _ in range(T):
            vp = F * v * F.T + S
            Sy = H * vp * H.T + X
            K = (Sy ** -1 * (H * vp)).T
            v = vp - K * Sy * K.T
            v = (v + v.T) / 2
            gains.append(K), vps.append(vp), vfs.append(v), Ss.append((Sy ** -1, mp.log(mp.det(Sy))))
        Gs = [(vps[t + 1] ** -1 * (F * vfs[t])).T for t in range(T - 1)]
        vss = [vfs[-1]]
        for t in range(T - 2, -1, -1):
            q = vfs[t] + Gs[t] * (vss[0] - vps[t + 1]) * Gs[t].T
            vss.insert(0, (q + q.T) / 2)
        WM, WN, WS = [], [], []
        Am = [mm([[v] for v in a]) for a in A]
        for w in hist:
            m, nl, out, outn, raw = m0, mp.mpf(0), [], [], []
            for t, i in enumerate(w):
                pm = F * m
                r = Am[i] - H * pm
                nl += ((r.T * Ss[t][0] * r)[0] + Ss[t][1] + dy * mp.log(2 * mp.pi)) / 2
                m = pm + gains[t] * r
                raw.append(m)
                out.append(to(m)[:, 0]), outn.append(float(nl))
            s = [raw[-1]]
            for t in range(T - 2, -1, -1):
                s.insert(0, raw[t] + Gs[t] * (s[0] - F * raw[t]))
            WM.append(out), WN.append(outn), WS.append([to(q)[:, 0] for q in s])
            ctx.trans(T)
        at, cov = model.posterior(3)
        for k in (min(5, len(hist) - 1), len(hist) - 1):
            pm, pn = at([A[i] for i in hist[k][:3]])
            ctx.close('reference recursion against conditioning', WM[k][2], fl(pm[-1]), 1e-12, rtol=1e-12, case=model.name)
            ctx.close('reference recursion against conditioning', WN[k][2], float(pn), 1e-12, rtol=1e-12, case=model.name)
        p = params(model)
        mf, vf, nl = [np.asarray(a) for a in run(*p, ys)]
        ms, vs = [np.asarray(a) for a in smooth(p[0], p[1], mf, vf)]
        sc = 1 + scale_of(model)
        if model.name == 'unstable':
            sc = max(sc, max(float(abs(v[i, i])) for v in vfs for i in range(dx)))
        case = dict(model=model.name, dx=dx, dy=dy, T=T)
        d = lambda i: dict(case, history=hist[i[0]][:25], step=i[1])
        ctx.close('filtering mean', mf, np.array(WM), 1e-10 * sc, rtol=1e-10, case=case, describe=d)
        ctx.close('filtering covariance', vf, np.broadcast_to(np.array([to(v) for v in vfs]), vf.shape), 1e-10 * sc ** 2, case=case, describe=d)
        ctx.close('negative log-likelihood', nl, np.array(WN), 1e-9, rtol=1e-11, case=case, describe=d)
        ctx.close('smoothing mean', ms, np.array(WS), 1e-9 * sc, rtol=1e-9, case=case, describe=d)
        ctx.close('smoothing covariance', vs, np.broadcast_to(np.array([to(v) for v in vss]), vs.shape), 1e-9 * sc ** 2, case=case, describe=d)
        for w in hist:
            ctx.state((model.name, dx, dy, w, T))
        ctx.trace(len(hist))
    ctx.sample(dict(dx=dx, dy=dy, period=periods[-1], T=len(periodic[0])))
