"""C15: bilinear layers are equivariant for all parameters and random selections."""
import itertools
import numpy as np
from mc import ref, lib, seams, nets

RULE = ('Pairs of representations x groups (single and mixed) x frameworks; the random channel selections are enumerated: all selections when there are at most 27 '
        '(quick: 9), otherwise first/last/rotating/repeated/reversed patterns; every unit parameter direction is enumerated and checked for equivariance on generic '
        'points (the layer is quadratic in the input) for every generator, every parameter must have an effect, and every batch shape must equal the row by row result.')
ASSUMPTIONS = ['selections are drawn with np.random.choice (otherwise real draws are used)', 'the layer is linear in its parameters (checked on generic values)']
V, T1, S = ('V', 0), ('T', ('V', 0)), ('1',)


def repset(tier):
    q = [('+', ('n*', 3, V), S), ('+', T1, ('+', ('n*', 2, V), ('*', V, V))), V, ('+', ('n*', 2, S), ('n*', 4, V)), ('*', V, T1), ('+', ('*', V, V), ('+', V, ('n*', 2, S)))]
    return q if tier == 'quick' else q + [S, ('n*', 5, V), ('+', ('n*', 2, ('*', V, T1)), T1), ('*', ('+', V, S), ('+', V, S)), T1, ('+', S, ('+', V, S))]


A, B = ('V', 0), ('V', 1)
MIXED = [('+', A, ('+', ('n*', 2, B), S)), ('*', A, B), ('+', ('*', A, B), ('+', A, A)), ('+', ('*', B, A), ('+', S, ('*', A, B))), ('+', ('n*', 2, ('*', B, ('+', A, S))), B)]
GROUPS = ['SL(2)', 'S(3)', 'SO(2)', 'SO11p()', 'O(3)', 'Trivial(2)', 'Z(3)', 'Scaling(2)', 'DkeR3(3)', 'Sp(1)', 'S(2)', 'O(1)', 'D(3)', 'Z(2)']
MPAIRS = [('SL(2)', 'S(3)'), ('S(2)', 'SO(2)'), ('O(2)', 'Z(3)')]


def plan(tier):
    q = tier == 'quick'
    out = []
    for fw in nets.FRAMEWORKS:
        gs = GROUPS[:5 if fw == 'objax' else 2] if q else GROUPS[:14 if fw == 'objax' else 8]
        for g in gs:
            for k in range(2): out.append(('pairs', dict(fw=fw, groups=[g], tier=tier, k=k)))
        for p in (MPAIRS[:2 if fw == 'objax' else 1] if q else MPAIRS):
            out.append(('pairs', dict(fw=fw, groups=list(p), tier=tier, k=-1)))
    out.sort(key=lambda x: -len(x[1]['groups']))
    return out


class Choice:
    """answer number t of np.random.choice(n, k); records how many selections are possible"""
    def __init__(self, t): self.t, self.i, self.total, self.orig = t, 0, 1, np.random.choice

    def __call__(self, a, size=None, replace=True, p=None):
        if size is None or not isinstance(a, (int, np.integer)) or p is not None or not isinstance(size, (int, np.integer)):
            return self.orig(a, size, replace, p)
        n, k = int(a), int(size)
        self.i += 1
        t = self.t
        if t >= 0:         # mixed radix digits: all selections
            d = []
            for _ in range(k):
                d.append(t % n); t //= n
            self.t = t
            self.total *= n**k
            r = np.array(d, int)
        else:
            j = np.arange(k)
            r = {-1: j % n, -2: (n - 1 - j) % n, -3: 0 * j, -4: (j + self.i) % n, -5: (3 * j + 2 * self.i + 1) % n, -6: 0 * j + n - 1}[t]
        if not replace and len(set(r.tolist())) < k: r = np.arange(k)
        return r.astype(int)


def selections(make, cap):
    """all selections if few, else the patterns"""
    c = Choice(0)
    old = np.random.choice
    np.random.choice = c
    try: net = make()
    finally: np.random.choice = old
    if c.i == 0 or c.total == 1: return [0]
    if c.total <= cap: return list(range(c.total))
    return [-1, -2, -3, -4, -5, -6]


def pairs(ctx, fw, groups, tier, k):
    gs = [ref.group(g) for g in groups]
    Gs = [g.make() for g in gs]
    ds = [g.d for g in gs]
    reps = MIXED if len(gs) > 1 else repset(tier)
    allp = list(itertools.product(reps, reps))
    for ei, eo in allp if k < 0 else allp[k::2]:
        ni, no = ref.size(ei, ds), ref.size(eo, ds)
        if ni * no > (150 if tier == 'quick' else 400): continue
        if tier == 'quick' and len(gs) > 1 and ni * no > 100: continue
        rin, rout = lib.build(ei, *Gs), lib.build(eo, *Gs)
        def make(): return nets.Net(fw, lambda m: m.BiLinear(rin, rout), ni)
        sels = [0]
        with ctx.scenario(f'{fw} {",".join(groups)}: {ref.show(ei)} -> {ref.show(eo)} (construction)') as s:
            if not s and ctx.only is None: continue
            cap = 9 if tier == 'quick' else 27
            import emlp.reps as R
            sels = selections(lambda: R.bilinear_weights(rout, rin), cap)
        if tier == 'quick' and fw != 'objax': sels = sels[:2]
        for t in sels:
            with ctx.scenario(f'{fw} {",".join(groups)}: {ref.show(ei)} -> {ref.show(eo)} selection {t}') as s:
                if not s: continue
                old = np.random.choice
                np.random.choice = Choice(t)
                try: net = make()
                finally: np.random.choice = old
                one(ctx, s, net, gs, ei, eo, ni, no)


def one(ctx, s, net, gs, ei, eo, ni, no):
    s.step(); ctx.state(s.name)
    X = lib.f32(lib.probe(4, ni, t=1))
    hs = lib.gen_tuples(gs)
    rows = np.concatenate([X] + [X @ np.real(ref.rho(ei, h)).T for h in hs]).astype(np.float32)
    u, P = net.units()
    th = net.generic(2)
    u = [np.concatenate([a, t[None]]) for a, t in zip(u, th)]
    Y = net.apply_many(u, rows)       # (P+1, rows, no)
    s.step(P)
    ctx.outcome(P, ni, no)
    s.check(len(net.shapes) == 1 and len(net.shapes[0]) == 1, f'parameters of shapes {net.shapes}')
    if not s.check(Y.shape == (P + 1, len(rows), no), f'outputs of shape {Y.shape}'): return
    base = Y[:, :4]
    for i, h in enumerate(hs):
        want = base @ np.real(ref.rho(eo, h)).T
        s.close(Y[:, 4 * (i + 1):4 * (i + 2)], want, 'f(gx) = g f(x) for every parameter', tol=4e-3)
        s.step(P)
    if P:
        s.check((np.abs(base[:P]).max((1, 2)) > 1e-5).all(), f'parameters without effect: {np.where(np.abs(base[:P]).max((1, 2)) <= 1e-5)[0][:10]}')
    flat = np.concatenate([t.reshape(-1) for t in th]) if th else np.zeros(0)
    s.close(base[P], np.einsum('p,pno->no', flat, base[:P]) if P else 0 * base[P], 'linear in the parameters')
    # batches
    x6 = np.concatenate([X, X[:2] * -1.5])
    y6 = np.concatenate([base[P], base[P][:2] * 2.25])
    for shape in ((2, 3), (1,), (), (3, 1, 2)):
        n = int(np.prod(shape))
        s.close(net.apply(th, x6[:n].reshape(shape + (ni,)), jit=False), y6[:n].reshape(shape + (no,)), f'batch shape {shape}')
    z = x6.copy(); z[1] = 7.
    y = net.apply(th, z.reshape(2, 3, ni), jit=False).reshape(6, no)
    s.close(np.delete(y, 1, 0), np.delete(y6, 1, 0), 'a row depends on another row')
    ctx.sample({'layer': s.name, 'parameters': P})
