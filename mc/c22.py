"""C22: LDL and modified Cholesky factorisations, and the Lanczos process, on all small integer matrices."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp
import numpy as np

from mc.common import FLOAT_TRUST

RULE = ('A state is one (matrix, leading block) resp. (matrix, start vector, iteration); a transition eliminates one pivot resp. does one Lanczos step. All '
        'symmetric integer matrices of the bounds are enumerated (positive definite, semi-definite of all ranks, indefinite), and factors are compared '
        'with rational elimination and with their defining equations.')
ASSUMPTIONS = [FLOAT_TRUST, 'LDL without pivoting: indefinite matrices that have no LDL factorisation are excluded', 'Lanczos: no breakdown (the Krylov spaces have full dimension)']


def cfg(tier):
    if tier == 'quick':
        return dict(vals={1: range(-3, 6), 2: range(-2, 4), 3: (-1, 0, 1, 2)}, gram=(-1, 0, 1), sizes=[4, 5, 8], lan={1: range(-2, 3), 2: range(-2, 3), 3: (-1, 0, 2)})
    return dict(vals={1: range(-9, 20), 2: range(-4, 7), 3: range(-2, 4)}, gram=(-1, 0, 1, 2), sizes=[4, 5, 6, 8, 12], lan={1: range(-5, 6), 2: range(-4, 5), 3: (-2, -1, 0, 1, 2)})


def bounds(tier):
    c = cfg(tier)
    return dict(entries={d: list(v) for d, v in c['vals'].items()}, gram_factors=c['gram'], larger_sizes=c['sizes'], lanczos_entries={d: list(v) for d, v in c['lan'].items()})


def units(tier):
    us = [(f'ldl n={d}', ['ldl', d], 5) for d in (1, 2, 3)] + [(f'ldl n={d}', ['big', d], 6) for d in cfg(tier)['sizes']]
    us += [('semi-definite n=3', ['gram', 3], 8), ('modified cholesky', ['mod', 0], 6)] + [(f'badly scaled n={d}', ['scaled', d], 7) for d in (1, 2, 3, 5)]
    us += [(f'lanczos n={d}', ['lan', d], 10) for d in (1, 2, 3)] + [('lanczos larger', ['lanbig', 0], 8)]
    return us


def run_unit(ctx, tier, kind, d):
    {'ldl': small, 'big': big, 'gram': gram, 'mod': modified, 'scaled': scaled, 'lan': lan, 'lanbig': lanbig}[kind](ctx, tier, d)


def sym(d, vals):
    iu = [(i, j) for i in range(d) for j in range(i, d)]
    for e in itertools.product(vals, repeat=len(iu)):
        A = [[0] * d for _ in range(d)]
        for (i, j), v in zip(iu, e):
            A[i][j] = A[j][i] = v
        yield A


def ldl_exact(A):
    """(L, D), or None if there is no factorisation without pivoting (a zero pivot with a non-zero column below)."""
    n = len(A)
    A = [[Fr(v) for v in r] for r in A]
    L = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    D = []
    for k in range(n):
        p = A[k][k]
        D.append(p)
        if p == 0:
            if any(A[i][k] for i in range(k + 1, n)):
                return None
            continue
        for i in range(k + 1, n):
            L[i][k] = A[i][k] / p
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i][j] -= L[i][k] * p * L[j][k]
    return L, D


def check_all(ctx, mats, tol=1e-12):
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl, ldl_chol
    arr = jnp.asarray(np.array(mats, dtype=float))
    L, D = map(np.asarray, jax.jit(jax.vmap(ldl))(arr))
    C = np.asarray(jax.jit(jax.vmap(ldl_chol))(arr))
    E = np.asarray(jax.jit(jax.vmap(lambda a: ldl_chol(a, 0.01)))(arr))
    n = len(mats[0])
    used = 0
    for k, A in enumerate(mats):
        ex = ldl_exact(A)
        if ex is None:
            continue
        # floating zeros: a pivot that is exactly zero may come out as rounding noise when the elimination is not exact in binary
        used += 1
        exact_in_binary = all(v.denominator & (v.denominator - 1) == 0 for r in ex[0] for v in r)
        wl, wd = np.array([[float(v) for v in r] for r in ex[0]]), np.array([float(v) for v in ex[1]])
        case = dict(matrix=A)
        Af = np.array(A, dtype=float)
        sing = any(d == 0 for d in ex[1])
        sc = max(1., np.abs(wl).max() ** 2 * max(1., np.abs(wd).max()))
        if not sing or exact_in_binary:
            ctx.close('L of LDL', L[k], wl, tol * sc, case=case)
            ctx.close('D of LDL', D[k], wd, tol * sc, case=case)
            ctx.close('A = L D L^T', L[k] @ np.diag(D[k]) @ L[k].T, Af, tol * sc * 10, case=case)
            eps = 1e-8 * np.linalg.norm(Af)
            ctx.close('modified Cholesky factor', C[k], wl * np.where(wd > 0, np.sqrt(np.abs(wd)), eps)[None], tol * sc, case=case)
            ctx.close('modified Cholesky factor (eps)', E[k], wl * np.where(wd > 0, np.sqrt(np.abs(wd)), 0.01)[None], tol * sc, case=case)
            if all(d > 0 for d in ex[1]):
                ctx.close('Cholesky factor of a positive definite matrix', C[k] @ C[k].T, Af, tol * sc * 10, case=case)
        ctx.ok(np.all(np.isfinite(C[k])), 'modified Cholesky factor is not finite', case)
        ctx.ok(np.array_equal(np.triu(C[k], 1), np.zeros((n, n))), 'modified Cholesky factor is not lower triangular', case)
        for j in range(n):
            ctx.state((str(A), j))
        ctx.trans(n)
        ctx.trace(3)
        ctx.outcomes.add(tuple(np.sign(wd).tolist()))
    ctx.sample(dict(matrix=mats[-1]))
    return used


def small(ctx, tier, d):
    import jax.numpy as jnp
    from mfs.utils import ldl, ldl_chol
    mats = list(sym(d, cfg(tier)['vals'][d]))
    ctx.ok(check_all(ctx, mats) > 3, 'too few matrices (machinery)')
    # eager, and with the other argument forms
    for A in mats[:: max(1, len(mats) // 12)]:
        ex = ldl_exact(A)
        if ex is None or any(v.denominator & (v.denominator - 1) for r in ex[0] for v in r):
            continue
        a = jnp.asarray(np.array(A, dtype=float))
        l, dd = ldl(a)
        ctx.ok(l.shape == (d, d) and dd.shape == (d,), 'shapes', A)
        ctx.close('L (eager)', l, np.array([[float(v) for v in r] for r in ex[0]]), 1e-12, case=A)
        ctx.close('D (eager)', dd, np.array([float(v) for v in ex[1]]), 1e-12, case=A)
        ctx.close('factor (keyword)', ldl_chol(a, eps=0.01), ldl_chol(mat=a, eps=0.01), 0., case=A)


def big(ctx, tier, n):
    """Larger sizes: Gram matrices of integer factors of all ranks, and Hilbert-like and Hankel matrices."""
    mats = []
    for k in range(40):
        r = 1 + k % n
        G = np.array([[(3 * i * i + 5 * j + 7 * k + i * j) % 5 - 2 for j in range(r)] for i in range(n)])
        mats.append((G @ G.T + (k % 3) * np.eye(n, dtype=int)).tolist())
        mats.append((G @ G.T * 4 + np.diag(np.arange(n) + 1)).tolist())
    check_all(ctx, mats, 1e-11)


def gram(ctx, tier, d):
    """All positive semi-definite matrices G G^T of integer factors: reconstruction within eps."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl_chol
    vals = cfg(tier)['gram']
    seen = {}
    for r in (1, 2, 3):
        for e in itertools.product(vals, repeat=d * r):
            G = np.array(e).reshape(d, r)
            seen[(G @ G.T).tobytes()] = (G @ G.T)
            if len(seen) > 6000:
                break
    mats = list(seen.values())
    C = np.asarray(jax.jit(jax.vmap(ldl_chol))(jnp.asarray(np.array(mats, dtype=float))))
    for A, c in zip(mats, C):
        ctx.ok(np.all(np.isfinite(c)), 'factor of a semi-definite matrix is not finite', A.tolist())
        ctx.close('factor of a semi-definite matrix', c @ c.T, A.astype(float), 1e-6 * max(1., np.abs(A).max()), case=A.tolist())
        ctx.state(A.tobytes())
        ctx.trans(d)
        ctx.trace()
    ctx.sample(dict(matrix=mats[len(mats) // 2].tolist()))


def scaled(ctx, tier, n):
    """Congruences D A D with diagonal matrices of powers of two (exact in floats): the factors scale exactly; no pivot is large or small in itself."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl, ldl_chol
    if n <= 3:
        mats = [A for A in sym(n, {1: (1, 3), 2: range(-2, 4), 3: (-1, 0, 1, 2)}[n]) if (e := ldl_exact(A)) and all(v > 0 for v in e[1])]
        mats += [A for A in sym(n, {1: (-2,), 2: range(-2, 3), 3: (-1, 1)}[n]) if (e := ldl_exact(A)) and all(e[1]) and min(e[1]) < 0]
    else:
        mats = []
        for k in range(6):
            G = np.array([[(3 * i * i + 5 * j + 7 * k + i * j) % 5 - 2 for j in range(n)] for i in range(n)])
            mats.append((G @ G.T + np.eye(n, dtype=int)).tolist())
    exps = [[e] * n for e in (-100, -40, -20, -12, 20, 100)] + [[(-1) ** i * 20 for i in range(n)], [-25 * i for i in range(n)], [-25 * (n - 1 - i) for i in range(n)],
                                                                 [30 - 15 * i for i in range(n)]]
    ex = [ldl_exact(A) for A in mats]
    for e in exps:
        D = np.array([2. ** v for v in e])
        arr = np.array(mats, dtype=float) * D[:, None] * D[None, :]
        L, d = map(np.asarray, jax.jit(jax.vmap(ldl))(jnp.asarray(arr)))
        C = np.asarray(jax.jit(jax.vmap(ldl_chol))(jnp.asarray(arr)))
        for k, A in enumerate(mats):
            wl, wd = np.array([[float(v) for v in r] for r in ex[k][0]]), np.array([float(v) for v in ex[k][1]])
            case = dict(matrix=A, powers=e)
            sc = 1e-12 * max(1., np.abs(wl).max() ** 2 * np.abs(wd).max(), (1 / np.abs(wd)).max())
            ctx.close('L of a badly scaled matrix', L[k] / (D[:, None] / D[None, :]), wl, sc, case=case)
            ctx.close('D of a badly scaled matrix', d[k] / D ** 2, wd, sc, case=case)
            if np.all(wd > 0):
                ctx.close('Cholesky factor of a badly scaled matrix', C[k] / D[:, None], wl * np.sqrt(wd), sc, case=case)
            else:
                nrm = 1e-8 * np.linalg.norm(arr[k])
                want = wl * (D[:, None] / D[None, :]) * np.where(wd > 0, np.sqrt(np.abs(wd)) * D, nrm)[None]
                ctx.close('modified Cholesky factor of a badly scaled matrix', C[k], want, 1e-300, rtol=sc * 100, case=case)
            ctx.state((str(A), str(e)))
            ctx.trans(n)
            ctx.trace(2)
    ctx.sample(dict(matrix=mats[-1], powers=exps[-1]))


def modified(ctx, tier, _):
    """Perturbation of the spectrum: the completion of A is positive definite for every non-zero A with an LDL factorisation, and derivatives exist."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl_chol
    mats = [A for A in sym(2, range(-3, 4)) if any(any(r) for r in A) and ldl_exact(A)] + [A for A in sym(3, (-1, 0, 2)) if any(any(r) for r in A) and ldl_exact(A)]
    for n in (2, 3):
        ms = [A for A in mats if len(A) == n]
        C = np.asarray(jax.jit(jax.vmap(lambda a: ldl_chol(a, 1e-3)))(jnp.asarray(np.array(ms, dtype=float))))
        g = np.asarray(jax.jit(jax.vmap(jax.grad(lambda a: jnp.sum(ldl_chol(a, 1e-3) ** 2))))(jnp.asarray(np.array(ms, dtype=float))))
        for A, c, gr in zip(ms, C, g):
            ctx.ok(np.all(np.diag(c) > 0), 'the completion is not positive definite', A, np.diag(c))
            ctx.ok(np.all(np.isfinite(gr)), 'derivative is not finite', A)
            ctx.state(str(A))
            ctx.trans(n)
            ctx.trace()
    ctx.sample(dict(matrix=mats[-1]))


def starts(n):
    out = [[int(i == k) for i in range(n)] for k in range(n)]
    if n > 1:
        out += [[1] * n, [(-1) ** i * (i + 1) for i in range(n)]]
    return out


def lan_exact(A, v0, m):
    """mpmath Lanczos without breakdown, or None."""
    n = len(A)
    A = mp.matrix(A)
    v = mp.matrix(v0)
    v = v / mp.norm(v)
    al, be, vs = [], [], [v]
    w = A * v
    a = (w.T * v)[0]
    al.append(a)
    w = w - a * v
    for _ in range(m - 1):
        b = mp.norm(w)
        if b < 1e-3:
            return None
        old, v = v, w / b
        vs.append(v)
        be.append(b)
        w = A * v
        a = (w.T * v)[0]
        al.append(a)
        w = w - a * v - b * old
    return np.array([[float(x) for x in v] for v in vs]).T, np.array([float(x) for x in al]), np.array([float(x) for x in be])


def lan(ctx, tier, n):
    import jax
    import jax.numpy as jnp
    from mfs.utils import lanczos, lanczos_ritz
    mats = list(sym(n, cfg(tier)['lan'][n]))
    used = 0
    for v0 in starts(n):
        u = np.array(v0, dtype=float) / np.linalg.norm(v0)
        for m in range(1, n + 1):
            arr = jnp.asarray(np.array(mats, dtype=float))
            V, al, be = map(np.asarray, jax.jit(jax.vmap(lambda a: lanczos(a, jnp.asarray(u), m)))(arr))
            R, th = map(np.asarray, jax.jit(jax.vmap(lambda a: lanczos_ritz(a, jnp.asarray(np.array(v0, dtype=float)), m)))(arr))
            for k, A in enumerate(mats):
                ex = lan_exact(A, v0, m)
                if ex is None:
                    continue
                used += 1
                case = dict(matrix=A, start=v0, iterations=m)
                for name, a, b in zip(('Lanczos vectors', 'diagonal', 'off-diagonal'), (V[k], al[k], be[k]), ex):
                    ctx.close(name, a, b, 1e-8, case=case)
                T = np.diag(ex[1]) + np.diag(ex[2], 1) + np.diag(ex[2], -1)
                w, U = np.linalg.eigh(T)
                ctx.close('Ritz values', th[k], w, 1e-8, case=case)
                Af, s = np.array(A, dtype=float), np.linalg.norm(v0)
                # the Ritz vectors are the components of v0 in the Krylov space: powers of A below m are reproduced
                for p in range(m):
                    ctx.close('powers of A on v0 by Ritz pairs', R[k] @ th[k] ** p, np.linalg.matrix_power(Af, p) @ np.array(v0, dtype=float), 1e-7 * s * max(1., np.abs(w).max()) ** p, case=dict(case, power=p))
                if m == n:
                    ctx.close('A R = R diag(theta)', Af @ R[k], R[k] * th[k][None], 1e-7 * s * max(1., np.abs(w).max()), case=case)
                ctx.state((str(A), str(v0), m))
                ctx.trans(m)
                ctx.trace(2)
    ctx.ok(used > 4, 'too few matrices (machinery)', n, used)
    try:
        lanczos_ritz(jnp.eye(2), jnp.ones((2,)), 1, eigh_tridiagonal=True)
        ctx.fail('eigh_tridiagonal is not implemented, but accepted', '')
    except NotImplementedError:
        pass
    ctx.sample(dict(matrix=mats[-1]))


def lanbig(ctx, tier, _):
    import jax
    import jax.numpy as jnp
    from mfs.utils import lanczos, lanczos_ritz
    for n in (4, 6, 8):
        for k in range(4):
            A = np.diag(np.arange(1., n + 1)) * (k + 1) + np.array([[((i * j + i + j) * (k + 2) % 7 - 3) / 10. for j in range(n)] for i in range(n)])
            A = (A + A.T) / 2
            v = np.array([1. + ((i * (k + 3)) % 5) for i in range(n)])
            for m in range(1, n + 1):
                V, al, be = map(np.asarray, lanczos(jnp.asarray(A), jnp.asarray(v / np.linalg.norm(v)), m))
                case = dict(n=n, k=k, iterations=m)
                ctx.ok(V.shape == (n, m) and al.shape == (m,) and be.shape == (m - 1,), 'shapes', case, (V.shape, al.shape, be.shape))
                T = np.diag(al) + np.diag(be, 1) + np.diag(be, -1)
                ctx.close('orthonormal', V.T @ V, np.eye(m), 1e-7, case=case)
                ctx.close('V^T A V = T', V.T @ A @ V, T, 1e-6, case=case)
                for so in (True, False):
                    R, th = map(np.asarray, lanczos_ritz(jnp.asarray(A), jnp.asarray(v), m, sort_eigenvalues=so))
                    ctx.close('Ritz values', np.sort(th), np.linalg.eigvalsh(T), 1e-7, case=case)
                    if so:
                        ctx.ok(np.all(np.diff(th) >= 0), 'Ritz values are not sorted', case)
                    for p in range(m):
                        ctx.close('powers of A on v0 by Ritz pairs', R @ th ** p, np.linalg.matrix_power(A, p) @ v, 1e-7 * np.linalg.norm(v) * np.abs(th).max() ** p, case=case)
                ctx.state((n, k, m))
                ctx.trans(m)
                ctx.trace()
    # homogeneity: A -> 2^k A, v -> 2^j v (exact in floats)
    for n, A, v in ((2, [[2., 1.], [1., -1.]], [1., 3.]), (3, [[1., 2., 0.], [2., -1., 1.], [0., 1., 3.]], [1., 2., -1.]), (5, None, None)):
        if A is None:
            A = [[float(i == j) * (i + 1) + ((i * j + i + j) % 7 - 3) / 8 for j in range(n)] for i in range(n)]
            v = [1., 3., 2., -1., 4.]
        A, v = np.array(A), np.array(v)
        for m in range(1, n + 1):
            V0, al0, be0 = map(np.asarray, lanczos(jnp.asarray(A), jnp.asarray(v / np.linalg.norm(v)), m))
            R0, th0 = map(np.asarray, lanczos_ritz(jnp.asarray(A), jnp.asarray(v), m))
            for k, j in itertools.product((-200, -40, -20, 20, 200), (-100, -30, 0, 30)):
                case = dict(n=n, iterations=m, powers_of_two=(k, j))
                V, al, be = map(np.asarray, lanczos(jnp.asarray(A * 2. ** k), jnp.asarray(v / np.linalg.norm(v)), m))
                ctx.close('Lanczos vectors of a scaled matrix', V, V0, 1e-9, case=case)
                ctx.close('diagonal of a scaled matrix', al / 2. ** k, al0, 1e-9, case=case)
                ctx.close('off-diagonal of a scaled matrix', be / 2. ** k, be0, 1e-9, case=case)
                R, th = map(np.asarray, lanczos_ritz(jnp.asarray(A * 2. ** k), jnp.asarray(v * 2. ** j), m))
                ctx.close('Ritz values of a scaled matrix', th / 2. ** k, th0, 1e-8, case=case)
                for p in range(m):
                    ctx.close('powers of a scaled matrix by Ritz pairs', R / 2. ** j @ (th / 2. ** k) ** p, np.linalg.matrix_power(A, p) @ v, 1e-8 * np.linalg.norm(v) * np.abs(th0).max() ** p, case=case)
                ctx.state(str(case))
                ctx.trans(m)
                ctx.trace(2)
    ctx.sample(dict(n=8))
