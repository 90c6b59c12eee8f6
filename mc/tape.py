"""Replacement of the random number generator by a tape, so that all random outcomes can be enumerated."""
import contextlib
import sys


@contextlib.contextmanager
def patched(**stubs):
    """Replace functions of jax.random (by name), also where mfs modules imported them directly."""
    import jax
    saved = []
    try:
        for name, stub in stubs.items():
            orig = getattr(jax.random, name)
            saved.append((jax.random, name, orig))
            setattr(jax.random, name, stub)
            for mod in [m for n, m in list(sys.modules.items()) if n == 'mfs' or n.startswith('mfs.')]:
                for attr, val in list(vars(mod).items()):
                    if val is orig:
                        saved.append((mod, attr, orig))
                        setattr(mod, attr, stub)
        yield
    finally:
        for obj, attr, val in reversed(saved):
            setattr(obj, attr, val)


def shape_of(args, kw, default=()):
    s = kw.get('shape', args[0] if args else default)
    return (s,) if isinstance(s, int) else tuple(s)
