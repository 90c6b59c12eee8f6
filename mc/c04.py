"""C04: the negative log likelihood of every filter can be differentiated, and its gradient is that of the exact likelihood."""
import math
from fractions import Fraction as Fr

import numpy as np

from mc import hmm
from mc.c01 import supports as supports_1d
from mc.c02 import solve_exact, supports as supports_nd
from mc.c07 import reference as graded_lexico
from mc.common import FLOAT_TRUST, fl, words

RULE = ('A state is the exact rational posterior, together with its exact derivatives along four parameters (transition, '
        'measurement, initial law, location of the atoms), after one observation history; transitions are observations. All '
        'histories up to the horizon are explored, and reverse- and forward-mode derivatives of the negative log likelihood '
        'returned by the filters are compared with the exact derivatives, in every representation and stability mode.')
ASSUMPTIONS = [FLOAT_TRUST, 'JAX differentiation of user callbacks', 'finite-support models, on which the filters are exact']


def cfg(tier):
    return dict(T=4, N=[1, 2, 3, 4], nd={(2, 1): 2, (2, 2): 3, (3, 2): 2, (2, 3): 1}, kf=3) if tier == 'quick' else \
        dict(T=6, N=[1, 2, 3, 4, 5], nd={(2, 1): 4, (2, 2): 5, (3, 2): 3, (2, 3): 3}, kf=5)


def bounds(tier):
    c = cfg(tier)
    return dict(history_length_1d=c['T'], N=c['N'], nd={str(k): v for k, v in c['nd'].items()}, alphabet=3, parameters=4,
                modes=['raw', 'central', 'scaled'], stable=[False, True], kalman_history_length=c['kf'])


def units(tier):
    c = cfg(tier)
    us = []
    for mode in ('raw', 'central', 'scaled'):
        for stable in (False, True):
            for N in c['N']:
                if mode == 'scaled' and N == 1:
                    continue
                us.append((f'1D N={N} {mode} stable={stable}', ['one', 1, N, c['T'], mode, stable], 5 + N))
            for (d, N), T in c['nd'].items():
                if mode == 'scaled' and N == 1 or (N == 3 and stable):
                    continue
                us.append((f'd={d} N={N} {mode} stable={stable}', ['nd', d, N, T, mode, stable], 8 + 4 * N * d))
    for dy in (1, 2, 3):
        us.append((f'Kalman dy={dy}', ['kf', 2, dy, c['kf'], '', False], 6))
    return us


class Dual:
    """a + sum_k b_k eps_k over the rationals."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __add__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.a + o, self.b)
        return Dual(self.a + o.a, tuple(x + y for x, y in zip(self.b, o.b)))

    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.a * o, tuple(x * o for x in self.b))
        return Dual(self.a * o.a, tuple(x * o.a + self.a * y for x, y in zip(self.b, o.b)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.a / o, tuple(x / o for x in self.b))
        return Dual(self.a / o.a, tuple((x * o.a - self.a * y) / o.a ** 2 for x, y in zip(self.b, o.b)))


THETA = [Fr(1, 8), Fr(-1, 5), Fr(1, 7), Fr(1, 16)]


def parametrise(base, lib, theta):
    """base: dict of exact arrays; the model at theta, in Dual or jnp arithmetic (lib = None: Dual; else jnp)."""
    s = len(base['w'])
    t1, t2, t3, t4 = theta
    if lib is None:
        P = [[base['P'][i][j] + t1 * (base['P2'][i][j] - base['P'][i][j]) for j in range(s)] for i in range(s)]
        L = [[base['L'][y][i] * (Dual(Fr(1), (Fr(0),) * 4) + t2 * base['h'][y][i]) for i in range(s)] for y in range(3)]
        w = [base['w'][i] + t3 * base['dw'][i] for i in range(s)]
        return P, L, w
    P = base['P'] + t1 * (base['P2'] - base['P'])
    L = base['L'] * (1. + t2 * base['h'])
    w = base['w'] + t3 * base['dw']
    atoms = base['atoms'] + t4 * base['datoms']
    return P, L, w, atoms


def arrays(base):
    import jax.numpy as jnp
    return {k: jnp.asarray(fl(v)) for k, v in base.items() if k != 'name'}


def base_models(atoms):
    s = len(atoms)
    nd = isinstance(atoms[0], tuple)
    mv = lambda i: Fr((3 * i + 1) % 5 - 2, 5)
    dat = [tuple(mv(i + 2 * k) for k in range(len(atoms[0]))) for i in range(s)] if nd else [mv(i) for i in range(s)]
    dw = [Fr((5 * i + 1) % 3 - 1, 8 * s) for i in range(s)]
    m = sum(dw) / s
    dw = [v - m for v in dw]
    h = [[Fr((2 * i + 3 * y) % 4 - 1, 3) for i in range(s)] for y in range(3)]
    common = dict(atoms=atoms, datoms=dat, dw=dw, h=h)
    return [dict(common, name='mix', P=hmm.rows(s, 'mix'), P2=hmm.rows(s, 'sticky'), L=hmm.likelihoods(s, 'plain'), w=hmm.weights(s, 'ramp')),
            dict(common, name='sticky scaled-likelihood', P=hmm.rows(s, 'sticky'), P2=hmm.rows(s, 'perm'), L=hmm.likelihoods(s, 'scaled'),
                 w=hmm.weights(s, 'bump'))]


def exact_tree(base, T, ctx, tag):
    """{history: (negative log likelihood, its four derivatives)}; locations do not change the likelihood of these models."""
    s = len(base['w'])
    eps = [Dual(THETA[k], tuple(Fr(int(j == k)) for j in range(4))) for k in range(4)]
    P, L, w = parametrise(base, None, eps)
    tree = {(): (w, 0., (Fr(0),) * 4)}
    frontier = [()]
    for _ in range(T):
        nxt = []
        for word in frontier:
            post, ll, g = tree[word]
            pred = [sum((post[i] * P[i][j] for i in range(s)), 0) for j in range(s)]
            for y in range(3):
                un = [pred[j] * L[y][j] for j in range(s)]
                c = sum(un, 0)
                tree[word + (y,)] = ([u / c for u in un], ll + hmm.log_fr(c.a), tuple(a + b / c.a for a, b in zip(g, c.b)))
                ctx.trans()
                ctx.state((tag, base['name'], word + (y,)))
                nxt.append(word + (y,))
        frontier = nxt
    return tree


def nll_1d(N, mode, stable):
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_cms, moment_filter_rms, moment_filter_scms

    def fun(theta, base, ys):
        P, L, w, atoms = parametrise(base, jnp, theta)
        s = N

        def basis(x):
            cols = []
            for j in range(s):
                c = jnp.ones_like(x)
                for k in range(s):
                    if k != j:
                        c = c * (x - atoms[k]) / (atoms[j] - atoms[k])
                cols.append(c)
            return jnp.stack(cols, axis=-1)

        pdf = lambda y, x: basis(x) @ L[hmm.decode(y)[0]] * hmm.decode(y)[1]
        n0 = jnp.arange(2 * N)
        mean = w @ atoms
        cms = w @ (atoms - mean)[:, None] ** n0
        if mode == 'raw':
            return moment_filter_rms(lambda x, n: basis(x) @ P @ atoms[:, None] ** n, pdf, w @ atoms[:, None] ** n0, ys, stable)[-1]
        if mode == 'central':
            return moment_filter_cms(lambda x, n, m: basis(x) @ P @ (atoms[:, None] - m) ** n, lambda x: basis(x) @ P @ atoms, pdf, cms,
                                     mean, ys, stable)[-1]
        scale = jnp.sqrt(cms[2])

        def mv(x):
            B = basis(x) @ P
            return B @ atoms, B @ atoms ** 2 - (B @ atoms) ** 2

        return moment_filter_scms(lambda x, n, m, sc: basis(x) @ P @ ((atoms[:, None] - m) / sc) ** n, mv, pdf, cms / scale ** n0, mean,
                                  scale, ys, stable)[-1]

    return fun


def nll_nd(d, N, mode, stable):
    import jax.numpy as jnp
    from mfs.multi_dims import moment_filter_nd_cms, moment_filter_nd_rms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    lat = np.array(graded_lexico(d, N - 1)).reshape(-1, d)
    mis = generate_graded_lexico_multi_indices(d, 2 * N - 1)
    order = (mis, gram_and_hankel_indices_graded_lexico(N, d))
    mi = jnp.asarray(mis)

    def fun(theta, base, ys):
        P, L, w, atoms = parametrise(base, jnp, theta)
        C = jnp.linalg.inv(jnp.prod(atoms[:, None, :] ** lat, axis=-1))
        basis = lambda x: jnp.prod(x[..., None, :] ** lat, axis=-1) @ C
        pdf = lambda y, x: basis(x) @ L[hmm.decode(y)[0]] * hmm.decode(y)[1]
        mean = w @ atoms
        pw = lambda u, n: jnp.prod(u[:, None, :] ** n, axis=-1)
        cms = w @ pw(atoms - mean, mi)
        sig = 'multi-index'
        if mode == 'raw':
            return moment_filter_nd_rms((lambda x, n: basis(x) @ P @ pw(atoms, n), sig), pdf, ys, order, w @ pw(atoms, mi), stable)[-1]
        if mode == 'central':
            return moment_filter_nd_cms((lambda x, n, m: basis(x) @ P @ pw(atoms - m, n), sig), lambda x: basis(x) @ P @ atoms, pdf, ys,
                                        order, cms, mean, stable)[-1]
        scale = jnp.sqrt(w @ (atoms - mean) ** 2)

        def mv(x):
            B = basis(x) @ P
            return B @ atoms, B @ atoms ** 2 - (B @ atoms) ** 2

        return moment_filter_nd_scms((lambda x, n, m, sc: basis(x) @ P @ pw((atoms - m) / sc, n), sig), mv, pdf, ys, order,
                                     cms / jnp.prod(scale ** mi, axis=-1), mean, scale, stable)[-1]

    return fun


def run_unit(ctx, tier, kind, d, N, T, mode, stable):
    if kind == 'kf':
        return kalman(ctx, tier, d, N, T)
    import jax
    import jax.numpy as jnp
    atoms_list = list(supports_1d(N)) if kind == 'one' else [supports_nd(d, N)[1]]
    th = jnp.array([float(t) for t in THETA])
    fun = nll_1d(N, mode, stable) if kind == 'one' else nll_nd(d, N, mode, stable)
    vg = jax.jit(jax.vmap(jax.value_and_grad(fun), in_axes=(None, None, 0)))
    for a, atoms in enumerate(atoms_list):
        for base in base_models(atoms):
            if kind == 'one' and a == 1 and base['name'] != 'mix':
                continue
            tree = exact_tree(base, T, ctx, (kind, d, N, a))
            ws = words(range(3), T)
            ys = jnp.array(hmm.encode(ws))
            val, rev = vg(th, arrays(base), ys)
            want_v = np.array([-tree[w][1] for w in ws])
            want_g = np.array([[-float(v) for v in tree[w][2]] for w in ws])
            tol = {1: 1e-10, 2: 1e-9, 3: 1e-8, 4: 1e-7, 5: 1e-6}[N]
            desc = lambda i: dict(model=base['name'], d=d, N=N, mode=mode, stable=stable, support=a, history=ws[i[0]],
                                  parameter=int(i[1]) if len(i) > 1 else None)
            ctx.close('negative log likelihood', val, want_v, tol, rtol=1e-13, describe=desc)
            ctx.close('reverse-mode gradient', rev, want_g, tol, describe=desc)
            if a == 0 and base['name'] == 'mix':
                fwd = jax.jit(jax.vmap(jax.jacfwd(fun), in_axes=(None, None, 0)))(th, arrays(base), ys)
                ctx.close('forward-mode gradient', fwd, want_g, tol, describe=desc)
                ctx.trace(len(ws))
            ctx.trace(len(ws))
            ctx.outcomes.update(np.round(np.asarray(rev)[:, 0], 8).tolist())
    ctx.sample(dict(N=N, mode=mode, history=ws[len(ws) // 2], gradient=want_g[len(ws) // 2].tolist()))


def kalman(ctx, tier, dx, dy, T):
    """Gradients of the Kalman-type likelihoods against the joint Gaussian law of the measurements."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import ekf, kf, sgp_filter
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    H0 = jnp.array([[1., 0.5], [-0.25, 1.], [0.5, -0.75]])[:dy]
    Xi0 = jnp.array([[0.5, 0.1, 0.], [0.1, 0.8, -0.1], [0., -0.1, 0.6]])[:dy, :dy]

    def model(th):
        F = jnp.array([[0.9, 0.2], [-0.1, 0.8]]) + th[0] * jnp.array([[1., 0.], [0.5, -1.]])
        Q = jnp.array([[0.3, 0.05], [0.05, 0.2]]) * jnp.exp(th[1])
        return F, Q, H0 * (1 + th[2]), Xi0 * jnp.exp(th[3]), jnp.array([0.5, -0.25]) + th[0], jnp.array([[0.6, 0.1], [0.1, 0.4]]) * jnp.exp(th[2])

    def joint(th, ys):
        F, Q, H, Xi, m0, v0 = model(th)
        m, cov = m0, v0
        means, covs = [], []
        for _ in range(T):
            m, cov = F @ m, F @ cov @ F.T + Q
            means.append(m)
            covs.append(cov)
        mu = jnp.concatenate([H @ v for v in means])
        rows = []
        for i in range(T):
            row = []
            for j in range(T):
                lo, hi = min(i, j), max(i, j)
                c = jnp.linalg.matrix_power(F, hi - lo) @ covs[lo]
                c = c if i >= j else c.T
                row.append(H @ c @ H.T + (Xi if i == j else 0.))
            rows.append(jnp.concatenate(row, 1))
        S = jnp.concatenate(rows, 0)
        r = ys.reshape(-1) - mu
        return 0.5 * (r @ jnp.linalg.solve(S, r) + jnp.linalg.slogdet(2 * math.pi * S)[1])

    def f_kf(th, ys):
        F, Q, H, Xi, m0, v0 = model(th)
        return kf(F, Q, H, Xi, m0, v0, ys)[2][-1]

    def f_ekf(th, ys):
        F, Q, H, Xi, m0, v0 = model(th)
        return ekf(lambda x, dt: (F @ x, Q), lambda x: (H @ x, Xi), m0, v0, 1., ys)[2][-1]

    def f_sgp(th, ys):
        F, Q, H, Xi, m0, v0 = model(th)
        return sgp_filter(lambda x, dt: (F @ x, Q), lambda x: (H @ x, Xi), SigmaPoints.cubature(2), m0, v0, 1., ys)[2][-1]

    alpha = [jnp.array(v)[:dy] for v in ([0., 0., 0.], [1., -0.5, 2.], [-2., 1.5, 0.25])]
    ws = words(range(3), T)
    ys = jnp.stack([jnp.stack([alpha[y] for y in w]) for w in ws])
    for th in (jnp.zeros(4), jnp.array([0.05, -0.3, 0.2, 0.4])):
        want = jax.jit(jax.vmap(jax.value_and_grad(joint), in_axes=(None, 0)))(th, ys)
        for name, f in (('kf', f_kf), ('ekf', f_ekf), ('sgp_filter', f_sgp)):
            got = jax.jit(jax.vmap(jax.value_and_grad(f), in_axes=(None, 0)))(th, ys)
            desc = lambda i: dict(filter=name, dy=dy, history=ws[i[0]])
            ctx.close(f'{name}: negative log likelihood', got[0], want[0], 1e-9, describe=desc)
            ctx.close(f'{name}: gradient', got[1], want[1], 1e-8, rtol=1e-9, describe=desc)
            ctx.trace(len(ws))
    for w in ws:
        ctx.state(('kf', dy, w))
        ctx.trans(T)
    ctx.outcomes.update(np.round(np.asarray(want[0]), 8).tolist())
    ctx.sample(dict(dy=dy, T=T, history=ws[-1]))
