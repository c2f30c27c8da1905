"""Explores interrupted dataset generation; started by the C25 check with LD_PRELOAD=fslog.so.
argv: so, function, json kwargs, only.  Prints one json line per scenario."""
import sys, os, json, traceback, itertools, signal, zlib, hashlib
import numpy as np
from mc import common, hd, fslog

_gen = [0]


def make_class(h, base, name):
    class DS(base):
        """trajectories are labelled with the arguments and the number of the generation"""
        def H(self, z): return (z[..., 1] ** 2).sum() / 2

        def sample_initial_conditions(self, bs):
            _gen[0] += 1
            return np.stack([1. + np.arange(bs) + 1000 * _gen[0], .25 * np.ones(bs)], 1)

        def generate_trajectory_data(self, n_systems, dt, integration_time, *a, **kw):
            _gen[0] += 1
            T = len(np.arange(0, integration_time, dt))
            tag = zlib.crc32(repr((name, n_systems, float(dt), float(integration_time))).encode()) % 512
            z = np.zeros((n_systems, T, 2), np.float32)
            z[..., 0] = np.arange(T)[None] + 4096 * np.arange(n_systems)[:, None]
            z[..., 1] = tag + 512 * (_gen[0] % 32000)
            return z
    DS.__name__ = DS.__qualname__ = name
    return DS


class Out:
    def __init__(self, only): self.only, self.states, self.outcomes = only, set(), set()

    def emit(self, name, fails, steps, ok):
        print('@@' + json.dumps(dict(name=name, fails=fails[:3], nfails=len(fails), steps=steps, ok=ok)), flush=True)


def clean(z):
    z = np.array(z)
    return z.shape, z.tobytes()


def problem(ds, args, name):
    """why this dataset is not a complete one for these arguments (None if it is)"""
    n, chunk, dt, it = args
    z = np.array(ds.Zs)
    if z.shape != (n, chunk, 2): return f'shape {z.shape}'
    if not np.isfinite(z).all(): return 'not finite'
    tag = zlib.crc32(repr((name, n, float(dt), float(it))).encode()) % 512
    if z[..., 1].max() < 1: return None     # not generated through the method above: only the shape can be judged
    if not (z[..., 1] % 512 == tag).all(): return 'trajectories of other arguments'
    if not (np.diff(z[..., 0], axis=1) == 1).all() or not (z[..., 0] // 4096 == np.arange(n)[:, None]).all(): return 'mangled trajectories'
    if len(np.unique(z[..., 1])) != 1: return 'trajectories of different generations'
    if len(ds) != n: return f'length {len(ds)}'
    (ic, T), zz = ds[n - 1]
    if not (np.array_equal(np.array(zz), z[n - 1]) and np.array_equal(np.array(ic), z[n - 1, 0]) and len(T) == chunk): return 'items differ from the trajectories'
    return None


def cuts_fn(every):
    def cuts(n):
        if every == 'all': return range(1, n)
        c = {1, 2, 3, 4, 8, 16, 30, 31, 64, 100, 128, 255, 256, 512, n // 4, n // 3, n // 2, 2 * n // 3, 3 * n // 4, n - 1, n - 2, n - 4, n - 22, n - 23, n - 64, n - 100}
        if every == 'fine': c |= set(range(1, n, 7)) | set(range(max(1, n - 150), n))
        return sorted(x for x in c if 0 < x < n)
    return cuts


class Env:
    def __init__(self, so, home):
        self.home, self.log, self.h = home, fslog.Log(so), hd.load()

    def start(self, t):
        fslog.put(self.home, t)

    def run(self, DS, args, regen=False, **kw):
        return self.log.run(self.home, lambda: DS(*args, regen=regen), **kw)


def later(env, DS, name, args, t, old, label, fails):
    """the later runs from a crash state: the first one gives a complete dataset, further ones exactly the same"""
    env.start(t)
    ds, exc, ops = env.run(DS, args)
    if exc is not None:
        fails.append(f'{label}: the next run raises {type(exc).__name__}: {exc}'); return None
    p = problem(ds, args, name)
    if p: fails.append(f'{label}: the next run gives a dataset that is not complete: {p}'); return None
    ds2, exc, ops2 = env.run(DS, args)
    if exc is not None:
        fails.append(f'{label}: the run after the next one raises {type(exc).__name__}: {exc}'); return None
    if clean(ds2.Zs) != clean(ds.Zs): fails.append(f'{label}: the run after the next one gives other trajectories')
    return ops


def crash(env, out, args_list, base, every, depth, tier):
    """all crash points of the first run (empty cache, or regenerating an existing one), then later runs;
    depth 2: the next run is interrupted as well"""
    h = env.h
    B = getattr(h, base)
    for args in args_list:
        args = tuple(args)
        for start in ('empty', 'other', 'same', 'regen'):
            name = 'DS' + base
            scen = f'{base}{args} {start}: depth {depth}, cuts {every}'
            if out.only and out.only != scen: continue
            DS = make_class(h, B, name)
            fails, steps, ok = [], 0, 0
            t0 = {}
            env.start(t0)
            if start == 'other': env.run(DS, (args[0] + 1,) + args[1:]); t0 = fslog.tree(env.home)
            if start in ('same', 'regen'): env.run(DS, args); t0 = fslog.tree(env.home)
            ds, exc, ops = env.run(DS, args, regen=start == 'regen')
            if exc is not None:
                out.emit(scen, [f'uninterrupted run raises {type(exc).__name__}: {exc}'], 1, 0); continue
            p = problem(ds, args, name)
            if p: fails.append(f'uninterrupted run: {p}')
            t = t0
            for o in ops: t = fslog.apply(t, o)
            complete = t == fslog.tree(env.home)      # the recorded history explains the files
            if not complete: cuts = lambda n: []
            else: cuts = cuts_fn(every)
            states = [(l, u) for l, u in fslog.crash_states(t0, ops, cuts)] if complete else [('after the run', fslog.tree(env.home))]
            for label, u in states:
                steps += 1
                n0 = len(fails)
                if depth == 1:
                    later(env, DS, name, args, u, t0, label, fails)
                else:
                    env.start(u)
                    _, exc, ops2 = env.run(DS, args)
                    if exc is not None: fails.append(f'{label}: the next run raises {type(exc).__name__}: {exc}'); continue
                    w = u
                    for o in ops2: w = fslog.apply(w, o)
                    if w != fslog.tree(env.home): continue
                    for l2, u2 in fslog.crash_states(u, ops2, lambda n: [1, n // 2, n - 1]):
                        steps += 1
                        later(env, DS, name, args, u2, t0, label + ', next run interrupted ' + l2, fails)
                        if len(fails) > 5: break
                ok += len(fails) == n0
                if len(fails) > 5: break
            out.emit(scen, fails, steps, ok)


def full(env, out, args_list, base, tier):
    """the disk becomes full (or an I/O error occurs) at every write, after every class of bytes"""
    h = env.h
    B = getattr(h, base)
    for args in args_list:
        args = tuple(args)
        for start in ('empty', 'regen'):
            name = 'DS' + base
            scen = f'{base}{args} {start}: disk full'
            if out.only and out.only != scen: continue
            DS = make_class(h, B, name)
            fails, steps, ok = [], 0, 0
            t0 = {}
            env.start(t0)
            if start == 'regen': env.run(DS, args); t0 = fslog.tree(env.home); env.start(t0)
            ds, exc, ops = env.run(DS, args, regen=start == 'regen')
            writes = env.log.writes
            n = max([len(o[4]) for o in ops if o[0] == 'W'] or [0])
            for k in range(writes):
                for c in sorted({0, 1, n // 3, n // 2, n - 1}):
                    env.start(t0)
                    ds, exc, _ = env.run(DS, args, regen=start == 'regen', fail_at=k, fail_bytes=c)
                    steps += 1
                    n0 = len(fails)
                    if exc is None:
                        p = problem(ds, args, name)
                        if p: fails.append(f'disk full in write {k} after {c} bytes: the run itself gives: {p}')
                    later(env, DS, name, args, fslog.tree(env.home), t0, f'disk full in write {k} after {c} bytes', fails)
                    ok += len(fails) == n0
                    if len(fails) > 5: break
            out.emit(scen, fails, steps, ok)


class Stop(KeyboardInterrupt): pass


def interrupt(env, out, args_list, base, tier):
    """an exception (Ctrl-C, out of memory, I/O error) at every call of a file system or serialisation function,
    before and after it took effect"""
    import torch, io, builtins, shutil, tempfile, pickle
    h = env.h
    B = getattr(h, base)
    places = [(os, n) for n in ('makedirs', 'mkdir', 'replace', 'rename', 'remove', 'unlink', 'link', 'open', 'fsync', 'write', 'close', 'getpid')]
    places += [(torch, 'save'), (np, 'save'), (np, 'savez'), (np, 'asarray'), (np, 'stack'), (np, 'split'), (pickle, 'dump'), (shutil, 'move'), (shutil, 'copy'),
               (builtins, 'open'), (tempfile, 'NamedTemporaryFile'), (tempfile, 'mkstemp'), (np.random, 'randint'), (torch, 'load'), (os.path, 'exists')]
    for args in args_list:
        args = tuple(args)
        for start in ('empty', 'regen', 'same'):
            for Exc in (Stop, OSError, MemoryError):
                name = 'DS' + base
                scen = f'{base}{args} {start}: {Exc.__name__} raised'
                if out.only and out.only != scen: continue
                DS = make_class(h, B, name)
                fails, steps, ok = [], 0, 0
                env.start({})
                if start != 'empty': DS(*args)
                t0 = fslog.tree(env.home)

                def go(at, when):
                    """run with the exception at event `at`; number of events"""
                    cnt = [0]
                    inside = [0]
                    old = []

                    def wrap(f):
                        def g(*a, **kw):
                            if inside[0]: return f(*a, **kw)
                            k = cnt[0]
                            cnt[0] += 1
                            if k == at and when == 'before': raise Exc('interrupted')
                            inside[0] += 1
                            try: r = f(*a, **kw)
                            finally: inside[0] -= 1
                            if k == at and when == 'after': raise Exc('interrupted')
                            return r
                        return g
                    for m, n in places:
                        f = getattr(m, n)
                        old.append((m, n, f))
                        setattr(m, n, wrap(f))
                    try:
                        try: DS(*args, regen=start == 'regen')
                        except Exc as e:
                            return cnt[0], e
                        return cnt[0], None
                    finally:
                        for m, n, f in old: setattr(m, n, f)
                env.start(t0)
                total, e = go(-1, '')
                for at in range(total):
                    for when in ('before', 'after'):
                        env.start(t0)
                        steps += 1
                        n0 = len(fails)
                        try:
                            go(at, when)
                        except Exception as e:
                            if not isinstance(e, (Exc,)) and not isinstance(e.__context__, Exc) and not isinstance(e.__cause__, Exc):
                                fails.append(f'{Exc.__name__} {when} call {at}: {type(e).__name__}: {e}')
                        later(env, DS, name, args, fslog.tree(env.home), t0, f'{Exc.__name__} {when} call {at}', fails)
                        ok += len(fails) == n0
                out.emit(scen, fails, steps, ok)


def keys(env, out, args_list, bases, part, parts, tier):
    """datasets with different arguments (or of different classes) in one cache: each keeps its own trajectories"""
    h = env.h
    env.start({})
    made = []
    combos = [(b, tuple(a)) for a in args_list for b in bases]
    scen = f'{len(combos)} datasets in one cache, order {part}'
    if out.only and out.only != scen: return
    order = combos[part * 7 % len(combos):] + combos[:part * 7 % len(combos)]
    if part % 2: order = order[::-1]
    fails, steps, ok = [], 0, 0
    cl = {b: make_class(h, getattr(h, b), 'DS' + b + 'k') for b in bases}
    first = {}
    for b, a in order:
        ds = cl[b](*a)
        p = problem(ds, a, 'DS' + b + 'k')
        if p: fails.append(f'{b}{a}: {p} (after creating {len(first)} others)')
        first[b, a] = clean(ds.Zs)
        steps += 1
    for rnd in range(2):
        for b, a in combos:
            n0 = len(fails)
            ds = cl[b](*a)
            steps += 1
            p = problem(ds, a, 'DS' + b + 'k')
            if p: fails.append(f'{b}{a} reloaded: {p}')
            elif clean(ds.Zs) != first[b, a]: fails.append(f'{b}{a} reloaded: other trajectories than at first')
            ok += len(fails) == n0
    # regeneration replaces exactly one entry
    for b, a in combos[part::max(1, parts)]:
        n0 = len(fails)
        ds = cl[b](*a, regen=True)
        steps += 1
        if clean(ds.Zs) == first[b, a] and ds.Zs[..., 1].max() >= 1: fails.append(f'{b}{a} regenerated: unchanged')
        first[b, a] = clean(ds.Zs)
        for b2, a2 in combos[:: max(1, len(combos) // 24)] + [(b, a)]:
            d2 = cl[b2](*a2)
            steps += 1
            if clean(d2.Zs) != first[b2, a2]: fails.append(f'{b2}{a2} changed after regenerating {b}{a}')
        ok += len(fails) == n0
    out.emit(scen, fails, steps, ok)


def real(env, out, tier):
    """the shipped datasets without substitutes: two classes, same arguments, saved and reloaded"""
    h = env.h
    scen = 'shipped datasets saved and reloaded'
    if out.only and out.only != scen: return
    fails = []
    env.start({})
    a = (3, 2, .2, 1)
    D = {c: getattr(h, c)(*a) for c in ('SHO', 'DoubleSpringPendulum')}
    for c in D:
        e = getattr(h, c)(*a)
        if clean(e.Zs) != clean(D[c].Zs): fails.append(f'{c} reloaded: other trajectories')
        if not (np.array_equal(e.T, D[c].T) and np.array_equal(e.T_long, D[c].T_long) and len(e) == 3): fails.append(f'{c} reloaded: other times')
        for i in range(3):
            (x, T), z = e[i]; (x2, T2), z2 = D[c][i]
            if not (np.array_equal(x, x2) and np.array_equal(z, z2)): fails.append(f'{c} reloaded: item {i}')
        if type(e.Zs) is not type(D[c].Zs): fails.append(f'{c} reloaded: {type(e.Zs)} instead of {type(D[c].Zs)}')
    out.emit(scen, fails, 4, 4)
    scen = 'reloaded in another process'
    if out.only and out.only != scen: return
    import subprocess
    code = ("import sys,json; sys.path.insert(0,%r); from mc import common; common.setup_env(); common.worker_init(); common.import_library(); from mc import hd; h=hd.load()\n"
            "import numpy as np\n"
            "for c in ('SHO','DoubleSpringPendulum'):\n  d=getattr(h,c)(3,2,.2,1); print('@@'+np.array(d.Zs).tobytes().hex())") % common.ROOT
    envv = dict(os.environ, PYTHONHASHSEED='77')
    envv.pop('LD_PRELOAD', None)
    r = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, env=envv, timeout=200)
    got = [l[2:] for l in r.stdout.splitlines() if l.startswith('@@')]
    fails = []
    if len(got) != 2: fails.append('the other process fails: ' + r.stderr[-300:])
    else:
        for c, gz in zip(('SHO', 'DoubleSpringPendulum'), got):
            if bytes.fromhex(gz) != np.array(D[c].Zs).tobytes(): fails.append(f'{c}: another process does not get the saved trajectories')
    out.emit(scen, fails, 2, 2)


def main():
    so, func, kw, only = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), sys.argv[4] or None
    common.setup_env(); common.worker_init(); common.import_library()
    with hd.home() as home:
        env = Env(so, home)
        globals()[func](env, Out(only), **kw)
    print('@@done', flush=True)


if __name__ == '__main__':
    main()
