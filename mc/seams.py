"""Seams owning the library's nondeterminism."""
import sys, zlib, builtins
import numpy as np

SALT = 0


def _mix(h, x):
    return ((h * 1000003) ^ x ^ (h >> 13)) & 0x3fffffffffffffff


def dhash(x):
    """Deterministic replacement for hash() inside the library's modules: depends only on the value
    and the salt (not on PYTHONHASHSEED or on addresses), so orderings can be enumerated."""
    if isinstance(x, tuple):
        h = 0x345678 + SALT * 7919
        for y in x:
            h = _mix(h, dhash(y))
        return h
    if isinstance(x, type):
        return zlib.crc32((x.__module__ + '.' + x.__qualname__ + str(SALT)).encode()) * 2654435761 & 0x3fffffffffffffff
    if isinstance(x, str):
        return zlib.crc32((x + '#' + str(SALT)).encode()) * 2654435761 & 0x3fffffffffffffff
    if isinstance(x, bytes):
        return zlib.crc32(x, SALT) * 2654435761 & 0x3fffffffffffffff
    if isinstance(x, frozenset):
        h = 17
        for y in sorted(dhash(y) for y in x): h = _mix(h, y)
        return h
    return builtins.hash(x)


def library_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == 'emlp' or n.startswith('emlp.'))]


def install(salt):
    set_salt(salt)


def set_salt(salt):
    """Choose the hash order; forgets the library's hash-keyed caches (their keys changed)."""
    global SALT
    SALT = salt
    for m in library_modules():
        m.__dict__['hash'] = dhash
    clear_caches()


def clear_caches():
    """Forget memoised results: class level dicts named like caches and functools caches."""
    import emlp.reps.representation as R
    for m in library_modules():
        for v in list(m.__dict__.values()):
            if hasattr(v, 'cache_clear'):
                v.cache_clear()
            if isinstance(v, type):
                for k, c in list(v.__dict__.items()):
                    if isinstance(c, dict) and 'cache' in k.lower() and not k.startswith('__'):
                        c.clear()
                    elif hasattr(c, 'cache_clear'):
                        c.cache_clear()
            elif isinstance(v, dict) and v is not m.__dict__:
                pass


def fingerprint(x, depth=0):
    """Canonical form of a representation object: everything reachable that the library may look at."""
    import emlp.groups as g
    if depth > 12: return '...'
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), bytes, complex)):
        return x
    if isinstance(x, g.Group):
        return ('G', repr(x))
    if isinstance(x, dict):
        return ('d',) + tuple((fingerprint(k, depth + 1), fingerprint(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple(fingerprint(v, depth + 1) for v in x)
    if hasattr(x, '__array__'):
        a = np.asarray(x)
        return ('nd', a.shape, a.dtype.str, a.tobytes())
    if hasattr(x, '__dict__'):
        return (type(x).__qualname__,) + tuple((k, fingerprint(v, depth + 1)) for k, v in sorted(x.__dict__.items()) if k not in ('_size',))
    return repr(type(x))


class PinRandom:
    """Replace the module-level numpy draws by enumerated answers for the duration of a block.
    `answers` maps function name -> callable(original, *args, **kw)."""

    def __init__(self, **answers):
        self.answers = answers
        self.calls = []

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in self.answers}
        for k, f in self.answers.items():
            def repl(*a, _f=f, _k=k, **kw):
                r = _f(*a, **kw)
                self.calls.append((_k, a, kw))
                return r
            setattr(np.random, k, repl)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items(): setattr(np.random, k, v)
