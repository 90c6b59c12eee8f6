"""Finite-state hidden Markov models with exact rational arithmetic: the reference model of the moment filters.

If the state lives on s atoms, then a moment filter that carries enough moments to determine a measure on s atoms must
reproduce the exact Bayesian recursion on these atoms, whatever the observations are.
"""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np


class Model:
    def __init__(self, name, atoms, init, P, L):
        self.name = name
        self.atoms = atoms  # list of Fractions, or of tuples of Fractions
        self.init = init  # list of Fractions, sums to one
        self.P = P  # rows sum to one
        self.L = L  # L[y][i] = p(y | atom i)
        assert sum(init) == 1 and all(sum(r) == 1 for r in P)

    @property
    def s(self):
        return len(self.atoms)


def step(model, post, y):
    """Exact prediction and update. Returns (posterior, predictive likelihood of y)."""
    s = model.s
    pred = [sum(post[i] * model.P[i][j] for i in range(s)) for j in range(s)]
    un = [pred[j] * model.L[y][j] for j in range(s)]
    c = sum(un)
    return [u / c for u in un], c


def explore(model, T, ctx=None, tag=None):
    """All observation histories up to length T (a breadth-first tree). Returns {word: (posterior, log-likelihood)}."""
    out = {(): (model.init, 0.)}
    frontier = [()]
    for _ in range(T):
        nxt = []
        for w in frontier:
            post, ll = out[w]
            for y in range(len(model.L)):
                p, c = step(model, post, y)
                out[w + (y,)] = (p, ll + log_fr(c))
                nxt.append(w + (y,))
                if ctx is not None:
                    ctx.trans()
                    ctx.state((tag, model.name, tuple(p)))
        frontier = nxt
    return out


def very_long_words(n=1100):
    """A few aperiodic histories over three letters, longer than a power of two."""
    return [tuple(i * i // 5 % 3 for i in range(n)), tuple((i * i + i // 7) % 3 for i in range(n)), tuple(bin(i).count('1') % 3 for i in range(n))]


def run_word(model, word, bits=None):
    """bits: round the posterior to so many binary digits after each step (for very long histories)."""
    post, ll = model.init, 0.
    res = []
    for y in word:
        post, c = step(model, post, y)
        if bits:
            post = [Fr(round(p * 2 ** bits), 2 ** bits) for p in post]
        ll += log_fr(c)
        res.append((post, ll))
    return res


def log_fr(c):
    """Natural logarithm of a positive rational without overflow."""
    n, d = c.numerator, c.denominator
    sh = n.bit_length() - d.bit_length()
    if abs(sh) < 900:
        return math.log(n / d) if abs(sh) < 50 else math.log(float(Fr(n, d) / Fr(2) ** sh)) + sh * math.log(2)
    return math.log(float(Fr(n, d) / Fr(2) ** sh)) + sh * math.log(2)


def raw_moments(atoms, post, orders):
    return [sum(p * x ** n for p, x in zip(post, atoms)) for n in orders]


def summary_1d(atoms, post, m):
    """(raw moments, mean, central moments, scale, scaled central moments) as floats, from exact rationals."""
    mean = sum(p * x for p, x in zip(post, atoms))
    rms = raw_moments(atoms, post, range(m))
    cms = raw_moments([x - mean for x in atoms], post, range(m))
    var = sum(p * (x - mean) ** 2 for p, x in zip(post, atoms))
    scale = math.sqrt(var)
    scms = [float(c) / scale ** n if scale > 0 else float('nan') for n, c in enumerate(cms)]
    return [float(v) for v in rms], float(mean), [float(v) for v in cms], scale, scms


def summary_nd(atoms, post, multi_indices):
    d = len(atoms[0])
    mean = [sum(p * x[k] for p, x in zip(post, atoms)) for k in range(d)]
    var = [sum(p * (x[k] - mean[k]) ** 2 for p, x in zip(post, atoms)) for k in range(d)]
    scale = [math.sqrt(v) for v in var]

    def mom(centre):
        out = []
        K = max(max(mi) for mi in multi_indices)
        pw = [[[(x[k] - centre[k]) ** n for n in range(K + 1)] for k in range(d)] for x in atoms]
        for mi in multi_indices:
            out.append(sum(p * math.prod(pw[i][k][mi[k]] for k in range(d)) for i, p in enumerate(post)))
        return out

    rms = mom([Fr(0)] * d)
    cms = mom(mean)
    scms = [float(c) / math.prod(s ** k for s, k in zip(scale, mi)) if all(scale) else float('nan')
            for c, mi in zip(cms, multi_indices)]
    return [float(v) for v in rms], [float(v) for v in mean], [float(v) for v in cms], scale, scms


# ---- model families -------------------------------------------------------------------------------------------------

def rows(s, kind):
    if kind == 'perm':  # deterministic transition
        return [[Fr(int(j == (i + 1) % s)) for j in range(s)] for i in range(s)]
    if kind == 'static':
        return [[Fr(int(j == i)) for j in range(s)] for i in range(s)]
    if kind == 'sticky':
        return [[Fr(7, 10) + Fr(3, 10 * s) if i == j else Fr(3, 10 * s) for j in range(s)] for i in range(s)]
    if kind == 'independent':  # the state forgets its past: all conditional moments are constant
        return [weights(s, 'bump') for _ in range(s)]
    if kind == 'mix':
        P = []
        for i in range(s):
            raw = [Fr(2 + ((3 * i + 5 * j + i * j) % 7)) for j in range(s)]
            P.append([r / sum(raw) for r in raw])
        return P
    raise ValueError(kind)


def weights(s, kind):
    raw = {'flat': [Fr(1)] * s, 'ramp': [Fr(2 + i) for i in range(s)],
           'bump': [Fr(3 + (5 * i + 2) % 4) for i in range(s)]}[kind]
    return [r / sum(raw) for r in raw]


def likelihoods(s, kind):
    """Three observation symbols."""
    base = [[Fr(2 + (2 * i + y * (i + 2)) % 5, 8) for i in range(s)] for y in range(3)]
    if s == 1:
        base = [[Fr(3, 8)], [Fr(5, 4)], [Fr(1, 7)]]
    if kind == 'plain':
        return base
    if kind == 'scaled':  # densities need not be of the order of one
        f = [Fr(10) ** -150, Fr(1), Fr(10) ** 120]
        return [[f[y] * v for v in base[y]] for y in range(3)]
    if kind == 'flat':  # one uninformative symbol, including a density larger than one
        return [[Fr(5, 2)] * s, base[1], [Fr(1, 3)] * s]
    raise ValueError(kind)


# Measurements that stand for the symbols 0, 1, 2: filters must hand them to the measurement model unchanged (no rounding, clipping, casting).
LETTERS = [1. / 3., -98765.4321, 1e-7 / 3.]


def encode(ws):
    import numpy as np
    return np.asarray(LETTERS)[np.asarray(ws, dtype='int64')]


def decode(y):
    """Symbol of a letter (or of an integer symbol), and one, or NaN if the measurement is neither."""
    import jax.numpy as jnp
    y = jnp.asarray(y)
    eq = (y == jnp.asarray(LETTERS)) | (y == jnp.arange(3.))
    return jnp.argmax(eq), jnp.where(jnp.any(eq), 1., jnp.nan)
