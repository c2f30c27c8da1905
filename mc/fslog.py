"""Recorded file system histories: the operations of a run, replayed up to any point on a scratch tree.
Runs inside a process started with LD_PRELOAD=fslog.so (see mc/native/fslog.c)."""
import ctypes, os, struct, shutil, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build(out):
    src = os.path.join(ROOT, 'mc', 'native', 'fslog.c')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', out, src, '-ldl', '-lpthread'], check=True, capture_output=True)
    return out


class Log:
    def __init__(self, so):
        L = self.L = ctypes.CDLL(so)
        L.mc_start.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
        L.mc_stop.restype = ctypes.c_size_t
        L.mc_buf.restype = ctypes.c_void_p
        L.mc_writes.restype = ctypes.c_long

    def run(self, home, f, fail_at=-1, fail_bytes=0):
        """f() with its operations below home recorded: (result, exception, operations)"""
        self.L.mc_start(home.encode(), fail_at, fail_bytes)
        res = exc = None
        try:
            res = f()
        except BaseException as e:
            exc = e
        n = self.L.mc_stop()
        self.writes = self.L.mc_writes()
        b = ctypes.string_at(self.L.mc_buf(), n) if n else b''
        ops, i = [], 0
        while i < n:
            op = chr(b[i])
            la, lb, off, ln = struct.unpack_from('<IIqQ', b, i + 1)
            i += 25
            p, q = b[i:i + la].decode(), b[i + la:i + la + lb].decode()
            i += la + lb
            ops.append((op, os.path.relpath(p, home), os.path.relpath(q, home) if q else '', off, b[i:i + ln]))
            i += ln
        return res, exc, ops


def tree(home):
    """relative path -> bytes (files) or None (directories)"""
    out = {}
    for d, ds, fs in os.walk(home):
        for x in ds: out[os.path.relpath(os.path.join(d, x), home)] = None
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f: out[os.path.relpath(os.path.join(d, x), home)] = f.read()
    return out


def put(home, t):
    for x in os.listdir(home):
        p = os.path.join(home, x)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for p in sorted(k for k, v in t.items() if v is None): os.makedirs(os.path.join(home, p), exist_ok=True)
    for p, v in t.items():
        if v is not None:
            os.makedirs(os.path.dirname(os.path.join(home, p)), exist_ok=True)
            with open(os.path.join(home, p), 'wb') as f: f.write(v)


def apply(t, op, cut=None):
    """the tree after one operation (a write possibly torn after `cut` bytes)"""
    o, p, q, off, data = op
    t = dict(t)
    if o == 'M': t[p] = None
    elif o == 'C': t[p] = b''
    elif o == 'T': t[p] = (t.get(p) or b'')[:off].ljust(off, b'\0')
    elif o == 'W':
        old = t.get(p) or b''
        if cut is not None: data = data[:cut]
        if data: t[p] = old[:off].ljust(off, b'\0') + data + old[off + len(data):]
    elif o == 'U': t.pop(p, None)
    elif o == 'L': t[q] = t.get(p)
    elif o == 'R':
        for k in [k for k in t if k == p or k.startswith(p + '/')]: t[q + k[len(p):]] = t.pop(k)
    return t


def crash_states(t, ops, cuts):
    """(label, tree) for every prefix of the operations and every torn last write; duplicates removed.
    cuts(n) gives the numbers of bytes at which a write of n bytes is torn."""
    seen = set()

    def key(t): return tuple(sorted(t.items(), key=lambda x: x[0]))
    for k in range(len(ops) + 1):
        kk = key(t)
        if kk not in seen:
            seen.add(kk)
            yield f'after {k} operations', t
        if k == len(ops): return
        if ops[k][0] == 'W':
            for c in cuts(len(ops[k][4])):
                u = apply(t, ops[k], c)
                kk = key(u)
                if kk not in seen:
                    seen.add(kk)
                    yield f'in operation {k} (write of {len(ops[k][4])} bytes torn after {c})', u
        t = apply(t, ops[k])
