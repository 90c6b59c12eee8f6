"""High-precision Gauss quadrature from moments (mpmath), used as the reference model of the moment quadratures."""
import mpmath as mp

from mc.c07 import reference as graded_lexico

mp.mp.dps = 60


def tri_solve(L, B):
    n = L.rows
    X = mp.matrix(n, B.cols)
    for c in range(B.cols):
        for i in range(n):
            X[i, c] = (B[i, c] - sum(L[i, k] * X[k, c] for k in range(i))) / L[i, i]
    return X


def jacobi(G, H):
    """R^{-1} H R^{-T} with G = R R^T."""
    R = mp.cholesky(G)
    Y = tri_solve(R, H)
    return tri_solve(R, Y.T)


def gauss_1d(ms, N):
    """ms: at least 2N moments (mp numbers). Returns sorted nodes and weights."""
    ms = [mp.mpf(m) if not hasattr(m, 'numerator') or isinstance(m, int) else mp.mpf(m.numerator) / m.denominator for m in ms]
    if N == 1:
        return [ms[1] / ms[0]], [ms[0]]
    G = mp.matrix(N, N)
    H = mp.matrix(N, N)
    for i in range(N):
        for j in range(N):
            G[i, j] = ms[i + j]
            H[i, j] = ms[i + j + 1]
    K = jacobi(G, H)
    K = (K + K.T) / 2
    E, Q = mp.eigsy(K)
    order = sorted(range(N), key=lambda k: E[k])
    return [E[k] for k in order], [ms[0] * Q[0, k] ** 2 for k in order]


def gauss_nd(ms, d, N):
    """ms: dict multi-index -> mp moment. Returns a list of (node tuple, weight) over all s**d combinations."""
    import itertools
    basis = graded_lexico(d, N - 1)
    s = len(basis)
    G = mp.matrix(s, s)
    for i, a in enumerate(basis):
        for j, b in enumerate(basis):
            G[i, j] = ms[tuple(x + y for x, y in zip(a, b))]
    eig = []
    for k in range(d):
        H = mp.matrix(s, s)
        for i, a in enumerate(basis):
            for j, b in enumerate(basis):
                t = [x + y for x, y in zip(a, b)]
                t[k] += 1
                H[i, j] = ms[tuple(t)]
        K = jacobi(G, H)
        K = (K + K.T) / 2
        E, Q = mp.eigsy(K)
        eig.append((E, Q))
    ip = [[[sum(eig[k][1][r, i] * eig[k + 1][1][r, j] for r in range(s)) for j in range(s)] for i in range(s)] for k in range(d - 1)]
    out = []
    for comb in itertools.product(range(s), repeat=d):
        w = eig[0][1][0, comb[0]] * eig[-1][1][0, comb[-1]]
        for k in range(d - 1):
            w *= ip[k][comb[k]][comb[k + 1]]
        out.append((tuple(eig[k][0][comb[k]] for k in range(d)), w))
    return out


def mpf(x):
    if hasattr(x, 'numerator') and hasattr(x, 'denominator'):
        return mp.mpf(int(x.numerator)) / int(x.denominator)
    return mp.mpf(x)
