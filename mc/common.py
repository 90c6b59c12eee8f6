"""Shared helpers."""
import itertools
from fractions import Fraction as Fr

import numpy as np


def assert_repo():
    import mfs.utils
    assert mfs.utils.__file__.startswith('/repo/'), mfs.utils.__file__


def words(alphabet, length):
    return list(itertools.product(alphabet, repeat=length))


def fl(x):
    """Nested Fractions to a float64 array."""
    if isinstance(x, Fr):
        return float(x)
    if isinstance(x, (list, tuple)):
        return np.array([fl(v) for v in x], dtype='float64')
    return np.asarray(x, dtype='float64')


FLOAT_TRUST = 'IEEE double arithmetic, the Python interpreter, NumPy/mpmath/fractions reference arithmetic, and JAX/XLA (executed, not modelled)'
