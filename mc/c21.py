"""C21: posterior Cramer-Rao bounds, against exact rational recursions over all trajectories of a grid."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import lingauss as lg
from mc.common import FLOAT_TRUST, fl
from mc.generator import Poly

RULE = ('A state is the information matrix after a prefix of a set of Monte Carlo trajectories; a transition consumes one time step of all '
        'trajectories and measurements. Log-densities are polynomials with rational coefficients, so that the oracle (Hessians, means over the '
        'trajectories, the recursion) is exact; all trajectories over the grid up to the horizon are enumerated. In linear-Gaussian models '
        'the inverse of the information must be the filtering covariance of exact Gaussian conditioning.')
ASSUMPTIONS = [FLOAT_TRUST, 'information matrices are non-singular']


def cfg(tier):
    return dict(T=2, grid=[-1, 0, 2], cap=1500) if tier == 'quick' else dict(T=3, grid=[-1, 0, 2], cap=20000)


def bounds(tier):
    c = cfg(tier)
    return dict(horizon=c['T'], grid=c['grid'], trajectories_cap=c['cap'], dimensions=[1, 2, 3], samples=[1, 2, 3])


def units(tier):
    us = []
    for dx, dy, N in itertools.product((1, 2), (1, 2), (1, 2, 3)):
        us.append((f'polynomial dx={dx} dy={dy} N={N}', ['poly', dx, dy, N], 5))
    for dx, dy in itertools.product((1, 2, 3), (1, 2)):
        us.append((f'linear-Gaussian dx={dx} dy={dy}', ['linear', dx, dy, 0], 5))
    return us


def run_unit(ctx, tier, kind, dx, dy, N):
    {'poly': poly, 'linear': linear}[kind](ctx, tier, dx, dy, N)


def P(terms):
    return Poly({k: Fr(v) for k, v in terms.items()})


def transition(dx):
    """log p(x | s): polynomial in (x_1..x_dx, s_1..s_dx), concave where it matters, with asymmetric mixed derivatives."""
    m = 2 * dx
    v = [P({tuple(int(a == i) for a in range(m)): 1}) for i in range(m)]
    x, s = v[:dx], v[dx:]
    out = P({})
    for i in range(dx):
        e = x[i] + s[i] * Fr(-1, 2) + s[i] * s[i] * Fr(-1, 8 + i)
        if dx > 1:
            e = e + s[(i + 1) % dx] * Fr(-1 - i, 3)
        out = out + e * e * Fr(-1, 2 * (i + 1))
        out = out + x[i] * x[i] * s[i] * s[i] * Fr(-1, 40) + x[i] * x[i] * x[i] * s[(i + 1) % dx] * Fr(1, 60)
    return out


def likelihood(dy, dx):
    """log p(y | x): polynomial in (y, x)."""
    m = dy + dx
    v = [P({tuple(int(a == i) for a in range(m)): 1}) for i in range(m)]
    y, x = v[:dy], v[dy:]
    out = P({})
    for i in range(dy):
        h = x[i % dx] + x[-1] * x[0] * Fr(1, 6)
        e = y[i] + h * -1
        out = out + e * e * Fr(-1, 2 + i) + x[i % dx] * x[i % dx] * x[0] * x[0] * Fr(-1, 24)
    return out


def diff(p, i):
    out = Poly()
    for k, c in p.items():
        if k[i]:
            kk = tuple(e - (a == i) for a, e in enumerate(k))
            out = out + Poly({kk: c * k[i]})
    return out


def ev(p, vals):
    t = Fr(0)
    for k, c in p.items():
        for v, e in zip(vals, k):
            c = c * v ** e
        t += c
    return t


def jax_fn(p, n1):
    import jax.numpy as jnp

    def f(a, b):
        v = [a[i] for i in range(n1)] + [b[i] for i in range(b.shape[0])]
        t = 0.
        for k, c in p.items():
            term = float(c)
            for x, e in zip(v, k):
                for _ in range(e):
                    term = term * x
            t = t + term
        return t

    return f


def hess(p, rows, cols):
    return [[diff(diff(p, i), j) for j in cols] for i in rows]


def poly(ctx, tier, dx, dy, N):
    import jax
    import jax.numpy as jnp
    from mfs.utils import posterior_cramer_rao
    c = cfg(tier)
    T = c['T']
    tr, li = transition(dx), likelihood(dy, dx)
    X, S = range(dx), range(dx, 2 * dx)
    Y2 = range(dy, dy + dx)
    Hss, Hst, Htt, Hl = hess(tr, S, S), hess(tr, S, X), hess(tr, X, X), hess(li, Y2, Y2)
    g = [Fr(v) for v in c['grid']]
    pts = list(itertools.product(g, repeat=dx))
    trajs = list(itertools.product(pts, repeat=T + 1))
    need = c['cap']
    if len(trajs) ** N <= need:
        sets = list(itertools.product(trajs, repeat=N))
    else:
        total = len(trajs) ** N
        step = total // need
        step += 1 - step % 2
        sets = []
        for i in range(need):
            k = i * step % total
            sets.append(tuple(trajs[k // len(trajs) ** n % len(trajs)] for n in range(N)))
    j0s = [[[Fr(2) if a == b else Fr(1, 2) for b in range(dx)] for a in range(dx)], [[Fr(10 + a) if a == b else Fr(-1) for b in range(dx)] for a in range(dx)]]
    j0 = j0s[N % 2]
    states = np.array([[[fl(list(tj[t])) for tj in s] for t in range(T + 1)] for s in sets], dtype=float)  # (k, T+1, N, dx)
    meas = [[[tuple(Fr((3 * t + 2 * n + k + i) % 4 - 1, 2) for i in range(dy)) for n in range(N)] for t in range(T)] for k in range(len(sets))]
    fn = jax.jit(jax.vmap(lambda st, me: posterior_cramer_rao(st, me, jnp.asarray(fl(j0)), jax_fn(tr, dx), jax_fn(li, dy))))
    mearr = np.array([[[fl(list(v)) for v in row] for row in m] for m in meas], dtype=float)
    got = np.asarray(fn(jnp.asarray(states), jnp.asarray(mearr)))
    ctx.ok(got.shape == (len(sets), T, dx, dx), 'shape', dict(dx=dx), got.shape)
    mean = lambda H, pts_: [[sum((ev(h, v) for v in pts_), Fr(0)) / N for h in row] for row in H]
    neg = lambda A: [[-v for v in r] for r in A]
    for k, s in enumerate(sets):
        j = j0
        for t in range(T):
            both = [list(s[n][t + 1]) + list(s[n][t]) for n in range(N)]
            lv = [list(meas[k][t][n]) + list(s[n][t + 1]) for n in range(N)]
            d11, d12 = neg(mean(Hss, both)), neg(mean(Hst, both))
            d22 = lg.add(neg(mean(Htt, both)), neg(mean(Hl, lv)))
            try:
                inv, det = lg.inv_det(lg.add(j, d11))
            except StopIteration:
                break
            if abs(det) < Fr(1, 100):
                break
            j = lg.add(d22, lg.mul(lg.T(d12), lg.mul(inv, d12)), -1)
            sc = max(1., float(max(abs(v) for r in j for v in r)), float(max(abs(v) for r in inv for v in r)) ** 2)
            ctx.close('information matrix', got[k, t], fl(j), 1e-10 * sc ** (t + 1), case=dict(dx=dx, dy=dy, trajectories=s, measurements=meas[k], t=t + 1))
            ctx.state((dx, dy, N, s[:], t))
            ctx.trans()
        ctx.trace()
    eager = posterior_cramer_rao(jnp.asarray(states[0]), jnp.asarray(mearr[0]), jnp.asarray(fl(j0)), jax_fn(tr, dx), jax_fn(li, dy))
    ctx.close('eager execution', eager, got[0], 1e-9, rtol=1e-9, case='eager')
    ctx.sample(dict(trajectories=sets[-1], measurements=meas[-1]))


def linear(ctx, tier, dx, dy, _):
    """The bound is attained: inverse information = filtering covariance, whatever the trajectories are."""
    import jax.numpy as jnp
    from mfs.utils import posterior_cramer_rao
    T = 4
    for mdl in lg.models(dx, dy):
        try:
            Si, _ = lg.inv_det(mdl.S)
            Xi, _ = lg.inv_det(mdl.X)
            j0, _ = lg.inv_det(mdl.v0)
        except StopIteration:
            continue  # singular noise: no densities
        F, H, Sa, Xa = map(fl, (mdl.F, mdl.H, Si, Xi))

        def ltr(x, s):
            e = x - F @ s
            return -0.5 * e @ Sa @ e

        def lli(y, x):
            e = y - H @ x
            return -0.5 * e @ Xa @ e

        # the state in other units: the information is a quadratic form
        from mc.c12 import scales
        st = np.sin(np.arange((T + 1) * 2 * dx) * 1.1).reshape(T + 1, 2, dx)
        ys = np.cos(np.arange(T * 2 * dy) * 0.7).reshape(T, 2, dy)
        for D, E, c, e, name in scales(dx, dy):
            if c.any() or e.any():  # a linear model keeps its origin
                continue
            DD = D[:, None] * D
            js = np.asarray(posterior_cramer_rao(jnp.asarray(st * D), jnp.asarray(ys * E), jnp.asarray(fl(j0) / DD), lambda x, s: ltr(x / D, s / D), lambda y, x: lli(y / E, x / D)))
            for t in range(T):
                want = fl(lg.inv_det(mdl.posterior(t + 1)[1][t])[0])
                ctx.close('inverse of the filtering covariance (other units)', js[t] * DD, want, 1e-10 * max(1., np.abs(want).max()) ** 2, case=dict(model=mdl.name, t=t + 1, powers_of_two=name))
                ctx.state((mdl.name, t, str(name)))
                ctx.trans()
            ctx.trace()
        for N in (1, 3):
            st = jnp.asarray(np.sin(np.arange((T + 1) * N * dx) * 1.1).reshape(T + 1, N, dx))
            ys = jnp.asarray(np.cos(np.arange(T * N * dy) * 0.7).reshape(T, N, dy))
            js = np.asarray(posterior_cramer_rao(st, ys, jnp.asarray(fl(j0)), ltr, lli))
            for t in range(T):
                covs = mdl.posterior(t + 1)[1]
                want = fl(lg.inv_det(covs[t])[0])
                ctx.close('inverse of the filtering covariance', js[t], want, 1e-10 * max(1., np.abs(want).max()) ** 2, case=dict(model=mdl.name, t=t + 1, N=N))
                ctx.state((mdl.name, t, N))
                ctx.trans()
            ctx.trace()
        # a long trajectory
        L = 300
        v, S, X = fl(mdl.v0), fl(mdl.S), fl(mdl.X)
        st = jnp.asarray(np.sin(np.arange((L + 1) * 2 * dx) * 1.1).reshape(L + 1, 2, dx))
        ys = jnp.asarray(np.cos(np.arange(L * 2 * dy) * 0.7).reshape(L, 2, dy))
        js = np.asarray(posterior_cramer_rao(st, ys, jnp.asarray(fl(j0)), ltr, lli))
        ctx.ok(js.shape == (L, dx, dx), 'shape', dict(model=mdl.name, T=L), js.shape)
        for t in range(L):
            v = F @ v @ F.T + S
            v = np.linalg.inv(np.linalg.inv(v) + H.T @ Xa @ H)
            want = np.linalg.inv(v)
            ctx.close('inverse of the filtering covariance (long)', js[t], want, 1e-8 * max(1., np.abs(want).max()) ** 2, case=dict(model=mdl.name, t=t + 1))
        ctx.state((mdl.name, 'long'))
        ctx.trans(L)
        ctx.trace()
        ctx.sample(dict(model=mdl.name))
