"""Exact arithmetic of the infinitesimal generator of an SDE on differential polynomials.

A function is a polynomial with rational coefficients in symbols v_1, ..., v_m, the first d of which are the state
variables; the others (tanh, sin, cos, ...) have polynomial derivatives. So A^r phi is computed without any rounding, and
it is only evaluated numerically (60 digits) at the end."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath as mp

mp.mp.dps = 60


class Poly(dict):
    def __add__(self, o):
        out = Poly(self)
        for k, v in o.items():
            s = out.get(k, Fr(0)) + v
            if s:
                out[k] = s
            else:
                out.pop(k, None)
        return out

    def __mul__(self, o):
        if not isinstance(o, dict):
            return Poly({k: v * o for k, v in self.items()} if o else {})
        out = {}
        for (a, x), (b, y) in itertools.product(self.items(), o.items()):
            k = tuple(i + j for i, j in zip(a, b))
            out[k] = out.get(k, Fr(0)) + x * y
        return Poly({k: v for k, v in out.items() if v})

    __rmul__ = __mul__


class Sde:
    """drift: list of d Poly; dispersion: d x w list of Poly; derivs[i][j]: Poly, the derivative of extra symbol i w.r.t. x_j;
    values(x): numeric values of all symbols (mpf)."""

    def __init__(self, name, d, extra, build, values):
        self.name, self.d, self.m = name, d, d + extra
        sym = [Poly({tuple(int(a == i) for a in range(self.m)): Fr(1)}) for i in range(self.m)]
        one = Poly({(0,) * self.m: Fr(1)})
        self.sym, self.one = sym, one
        self.drift, self.dispersion, ex = build(sym, one)
        z = Poly()
        self.der = [[one if i == j else z for j in range(d)] for i in range(d)] + ex
        self.values = values
        w = len(self.dispersion[0])
        self.gamma = []
        for i in range(d):
            row = []
            for j in range(d):
                g = z
                for k in range(w):
                    g = g + self.dispersion[i][k] * self.dispersion[j][k]
                row.append(g)
            self.gamma.append(row)
        self.cache = {}

    def diff(self, p, j):
        out = Poly()
        for k, v in p.items():
            for i in range(self.m):
                if k[i] and self.der[i][j]:
                    mono = Poly({tuple(e - (a == i) for a, e in enumerate(k)): v * k[i]})
                    out = out + mono * self.der[i][j]
        return out

    def apply(self, p):
        grads = [self.diff(p, j) for j in range(self.d)]
        out = Poly()
        for j in range(self.d):
            out = out + self.drift[j] * grads[j]
            for k in range(self.d):
                if self.gamma[j][k]:
                    out = out + self.gamma[j][k] * self.diff(grads[j], k) * Fr(1, 2)
        return out

    def power(self, n, r):
        """A^r of the monomial x^n."""
        key = (tuple(n), r)
        if key not in self.cache:
            if r == 0:
                self.cache[key] = Poly({tuple(n) + (0,) * (self.m - self.d): Fr(1)})
            else:
                self.cache[key] = self.apply(self.power(n, r - 1))
        return self.cache[key]

    def evaluate(self, p, vals):
        return mp.fsum(mp.mpf(v.numerator) / v.denominator * mp.fprod(x ** e for x, e in zip(vals, k)) for k, v in p.items()) if p else mp.mpf(0)

    def mass(self, p, vals):
        return mp.fsum(abs(mp.mpf(v.numerator) / v.denominator) * mp.fprod(abs(x) ** e for x, e in zip(vals, k)) for k, v in p.items()) if p else mp.mpf(0)

    def raw(self, x, dt, order, mis):
        """{n: (expansion of E[X^n], sum of absolute terms)}."""
        vals = self.values([mp.mpf(v.numerator) / v.denominator for v in x])
        dt = mp.mpf(dt.numerator) / dt.denominator
        out = {}
        for n in mis:
            t = s = mp.mpf(0)
            for r in range(order + 1):
                p = self.power(n, r)
                c = dt ** r / math.factorial(r)
                t += c * self.evaluate(p, vals)
                s += c * self.mass(p, vals)
            out[tuple(n)] = (t, s)
        return out

    def mean_cov(self, x, dt, order):
        """Mean and covariance expansions, truncated at dt^order."""
        d = self.d
        vals = self.values([mp.mpf(v.numerator) / v.denominator for v in x])
        dt = mp.mpf(dt.numerator) / dt.denominator
        unit = lambda *ii: tuple(sum(a == i for i in ii) for a in range(d))
        A1 = [[self.evaluate(self.power(unit(i), r), vals) for r in range(order + 1)] for i in range(d)]
        m = [sum(dt ** r / math.factorial(r) * A1[i][r] for r in range(order + 1)) for i in range(d)]
        C = [[mp.mpf(0)] * d for _ in range(d)]
        for i in range(d):
            for j in range(d):
                for r in range(1, order + 1):
                    c = self.evaluate(self.power(unit(i, j), r), vals) - sum(math.comb(r, k) * A1[i][k] * A1[j][r - k] for k in range(r + 1))
                    C[i][j] += dt ** r / math.factorial(r) * c
        return m, C

    def mean_cov_mass(self, x, dt, order):
        """Sums of the absolute terms of the expansions of the mean and covariance."""
        d = self.d
        vals = self.values([mp.mpf(v.numerator) / v.denominator for v in x])
        dt = mp.mpf(dt.numerator) / dt.denominator
        unit = lambda *ii: tuple(sum(a == i for i in ii) for a in range(d))
        A1 = [[self.mass(self.power(unit(i), r), vals) for r in range(order + 1)] for i in range(d)]
        m = [sum(dt ** r / math.factorial(r) * A1[i][r] for r in range(order + 1)) for i in range(d)]
        C = [[sum(dt ** r / math.factorial(r) * (self.mass(self.power(unit(i, j), r), vals) + sum(math.comb(r, k) * A1[i][k] * A1[j][r - k] for k in range(r + 1)))
                  for r in range(1, order + 1)) for j in range(d)] for i in range(d)]
        return m, C


def shift(table, n, mean, k):
    """E[(X - mean)^n] from the raw table; k = 0 value, k = 1 absolute terms."""
    tot = mp.mpf(0)
    for v in itertools.product(*[range(e + 1) for e in n]):
        b = math.prod(math.comb(e, j) for e, j in zip(n, v))
        c = mp.fprod(((-m) if k == 0 else abs(m)) ** (e - j) for m, e, j in zip(mean, n, v))
        tot += b * c * table[v][k]
    return tot
