"""Exact linear-Gaussian models: joint conditioning in rational arithmetic."""
import math
from fractions import Fraction as Fr

import mpmath as mp

mp.mp.dps = 60


def mat(r):
    return [[Fr(v) for v in row] for row in r]


def mul(A, B):
    Bt = list(zip(*B))
    return [[sum((a * b for a, b in zip(r, c)), Fr(0)) for c in Bt] for r in A]


def T(A):
    return [list(r) for r in zip(*A)]


def add(A, B, s=1):
    return [[a + s * b for a, b in zip(r, q)] for r, q in zip(A, B)]


def eye(n):
    return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]


def inv_det(A):
    """Inverse and determinant by rational elimination."""
    n = len(A)
    M = [list(r) + e for r, e in zip(A, eye(n))]
    det = Fr(1)
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return [r[n:] for r in M], det


class Model:
    def __init__(self, name, F, S, H, X, m0, v0):
        self.name = name
        self.F, self.S, self.H, self.X, self.m0, self.v0 = mat(F), mat(S), mat(H), mat(X), [Fr(v) for v in m0], mat(v0)
        self.dx, self.dy = len(F), len(H)

    def joint(self, n):
        """Prior means and covariance blocks of x_1..x_n."""
        means, covs = [], [[None] * n for _ in range(n)]
        m, v = [[a] for a in self.m0], self.v0
        for k in range(n):
            m = mul(self.F, m)
            v = add(mul(mul(self.F, v), T(self.F)), self.S)
            means.append([a[0] for a in m])
            covs[k][k] = v
        for i in range(n):
            for j in range(i + 1, n):
                covs[j][i] = mul(self.F, covs[j - 1][i])
                covs[i][j] = T(covs[j][i])
        return means, covs

    def posterior(self, n):
        """For the observations y_1..y_n: a function ys -> (means of x_1..x_n, nll), and the posterior covariances (n x n blocks on the diagonal)."""
        dx, dy = self.dx, self.dy
        means, covs = self.joint(n)
        big = [[covs[i][j] for j in range(n)] for i in range(n)]
        Sy = [[Fr(0)] * (n * dy) for _ in range(n * dy)]
        Cxy = [[Fr(0)] * (n * dy) for _ in range(n * dx)]
        for i in range(n):
            for j in range(n):
                c = mul(big[i][j], T(self.H))
                s = mul(self.H, c)
                if i == j:
                    s = add(s, self.X)
                for a in range(dx):
                    for b in range(dy):
                        Cxy[i * dx + a][j * dy + b] = c[a][b]
                for a in range(dy):
                    for b in range(dy):
                        Sy[i * dy + a][j * dy + b] = s[a][b]
        Si, det = inv_det(Sy)
        G = mul(Cxy, Si)
        my = [v for m in means for v in [r[0] for r in mul(self.H, [[a] for a in m])]]
        R = mul(G, T(Cxy))
        covpost = [[[big[i][i][a][b] - R[i * dx + a][i * dx + b] for b in range(dx)] for a in range(dx)] for i in range(n)]
        logdet = mp.log(mp.mpf(det.numerator) / det.denominator)
        const = (n * dy * mp.log(2 * mp.pi) + logdet) / 2

        def at(ys):
            e = [y - m for y, m in zip([v for y in ys for v in y], my)]
            up = [sum(g * v for g, v in zip(row, e)) for row in G]
            q = sum(a * b for a, b in zip(e, [sum(s * v for s, v in zip(row, e)) for row in Si]))
            ms = [[means[i][a] + up[i * dx + a] for a in range(dx)] for i in range(n)]
            return ms, const + mp.mpf(q.numerator) / q.denominator / 2

        return at, covpost


def h(*a):
    return [Fr(v) for v in a]


def models(dx, dy):
    """Rational models of all shapes."""
    rot = [[Fr(4, 5), Fr(3, 5), 0], [Fr(-3, 5), Fr(4, 5), Fr(1, 4)], [Fr(1, 5), 0, Fr(1, 2)]]
    drift = [[1, Fr(1, 2), 0], [0, 1, Fr(1, 2)], [0, 0, 1]]
    sing = [[Fr(1, 2), Fr(1, 2), 0], [Fr(1, 2), Fr(1, 2), 0], [0, 0, 0]]
    S1 = [[1, Fr(1, 4), 0], [Fr(1, 4), Fr(1, 2), Fr(1, 8)], [0, Fr(1, 8), 2]]
    S2 = [[Fr(1, 10), 0, 0], [0, 3, 0], [0, 0, Fr(1, 3)]]
    V1 = [[2, Fr(1, 2), Fr(-1, 4)], [Fr(1, 2), 1, 0], [Fr(-1, 4), 0, Fr(3, 2)]]
    Z = [[0] * 3 for _ in range(3)]
    H1 = [[1, 0, Fr(1, 2)], [Fr(1, 2), -1, 0], [0, 2, 1]]
    H2 = [[0, Fr(1, 3), 1], [1, 1, -1], [1, 0, 0]]
    H3 = [[1, 0, 0], [1, 0, 0], [0, 0, 0]]
    X1 = [[Fr(1, 2), Fr(1, 8), 0], [Fr(1, 8), 1, Fr(-1, 4)], [0, Fr(-1, 4), 2]]
    X2 = [[4, 0, 0], [0, Fr(1, 100), 0], [0, 0, 1]]
    m1, m0 = [Fr(1, 2), -1, 2], [0, 0, 0]
    sub = lambda A, r, c: [[A[i][j] for j in range(c)] for i in range(r)]
    mk = lambda name, F, S, H, X, m, v: Model(name, sub(F, dx, dx), sub(S, dx, dx), sub(H, dy, dx), sub(X, dy, dy), m[:dx], sub(v, dx, dx))
    return [mk('rotation', rot, S1, H1, X1, m1, V1), mk('drift', drift, S2, H2, X2, m0, V1), mk('singular transition', sing, S1, H1, X2, m1, S2),
            mk('known initial state', rot, S2, H1, X1, m1, Z), mk('uninformative rows', drift, S1, H3, X1, m1, V1)]


def unstable(dx, dy):
    """An observable model whose transition is not stable: the state grows, the filter does not."""
    m = models(dx, dy)[0]
    F = [[Fr(6, 5), Fr(3, 10), 0], [Fr(-3, 10), Fr(5, 4), Fr(1, 4)], [Fr(1, 5), 0, Fr(11, 10)]]
    return Model('unstable', [r[:dx] for r in F[:dx]], m.S, m.H, m.X, m.m0, m.v0)


def scaled(m, s):
    """The same model with the state measured in other units."""
    return Model(m.name + f' x{s}', m.F, [[v * s * s for v in r] for r in m.S], m.H, [[v * s * s for v in r] for r in m.X],
                 [v * s for v in m.m0], [[v * s * s for v in r] for r in m.v0])
