"""C20: datasets are labelled consistently with their declared symmetry."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('Regression datasets: the answers of np.random.randn are enumerated (complete polarisation grids, which determine labels polynomial in the input, and '
        'every size N / number of bodies k of the list); for every generator of the declared and of the documented group (discrete, and exp(tA) for every Lie '
        'algebra element and two t) the dataset is built again on the transformed inputs and the labels compared. Statistics are compared under the same '
        'elements. Cube datasets: every row is decided against the complete orbit (24 elements for the cube, exact Schreier-Sims membership for the 4.3e19 '
        'Rubik configurations) with Group.samples answering all words up to the length bound and np.random.permutation enumerated.')
ASSUMPTIONS = ['labels are functions of the row of inputs that are polynomial (Inertia, ParticleInteraction) or functions of rotation invariants (O5Synthetic) on the explored grid']
BUDGET = {'quick': 300, 'thorough': 1500}


def plan(tier):
    out = []
    ks = range(1, 7) if tier == 'quick' else range(1, 13)
    for k in ks: out.append(('inertia', dict(k=k, tier=tier)))
    out += [('o5', dict(tier=tier)), ('particle', dict(tier=tier)), ('inverted', dict(tier=tier)), ('shapes', dict(tier=tier))]
    L = 12 if tier == 'quick' else 26
    out += [('rubik', dict(part=i, parts=L, tier=tier)) for i in range(L)]
    out.append(('rubik_broken', dict(tier=tier)))
    return out


# ------------------------------------------------------------------ helpers
def make(cls, D, *a, **kw):
    """Build a dataset whose (N, dim) standard normal draw is answered with D."""
    orig = np.random.randn
    hit = []

    def randn(*shape):
        if tuple(shape) == D.shape:
            hit.append(1)
            return D.copy()
        return orig(*shape)
    with seams.PinRandom(randn=randn):
        ds = cls(*a, **kw)
    return ds, bool(hit)


def elements(G):
    """(name, matrix) for the generators of G and one-parameter elements."""
    from scipy.linalg import expm
    I = np.eye(G.d)
    out = [(f'h{i}', np.asarray(h @ I)) for i, h in enumerate(G.discrete_generators)]
    for i, A in enumerate(G.lie_algebra):
        A = np.asarray(A @ I, np.float64)
        for t in (0.7, -1.9):
            out.append((f'exp({t}A{i})', expm(t * A)))
    if len(out) > 1:
        out.append(('product', out[0][1] @ out[-1][1] @ out[len(out) // 2][1]))
    return out


def rho(V, g):
    return np.asarray(V.rho_dense(g), np.float64)


def label_family(ctx, tag, cls, D, args, Gs):
    """labels of D vs labels of every transformed D"""
    with ctx.scenario(f'{tag} base') as s:
        if not s: return
        ds, hit = make(cls, D, *args)
        X, Y = np.asarray(ds.X, np.float64), np.asarray(ds.Y, np.float64)
        s.check(X.ndim == 2 and X.shape[0] == D.shape[0] == len(ds), f'inputs have shape {X.shape}, len {len(ds)} for N={D.shape[0]}')
        s.check(Y.ndim == 2 and Y.shape[0] == X.shape[0], f'labels have shape {Y.shape}')
        s.check(np.isfinite(Y).all() and np.isfinite(X).all(), 'non-finite labels')
    for G in [ds.symmetry] + [g for g in Gs if g != ds.symmetry]:
        Vi, Vo = ds.rep_in(G), ds.rep_out(G)
        for gn, g in elements(G):
            with ctx.scenario(f'{tag} {G} {gn}') as s:
                if not s: continue
                ctx.state(tag, str(G), gn)
                s.check(Vi.size() == X.shape[1] and Vo.size() == Y.shape[1], f'declared sizes {Vi.size()}->{Vo.size()} for data {X.shape}->{Y.shape}')
                Ri, Ro = rho(Vi, g), rho(Vo, g)
                want = X @ Ri.T
                # the draws enter the inputs entrywise (rescaled or softplused); invert that map numerically
                D2 = solve_draw(cls, args, D, X, want, s)
                ds2, hit2 = make(cls, D2, *args)
                X2 = np.asarray(ds2.X, np.float64)
                if not np.allclose(X2, want, rtol=1e-5, atol=1e-5):
                    ctx.count('draw_not_invertible')
                    from mc.common import Skip
                    raise Skip
                s.step(len(X2))
                Y2 = np.asarray(ds2.Y, np.float64)
                bad = np.abs(Y2 - Y @ Ro.T).max(1) > 2e-3 * (1 + np.abs(Y).max(1) + np.abs(Y2).max(1))
                s.check(not bad.any(), f'{int(bad.sum())} of {len(bad)} transformed inputs have a label that is not the transformed label',
                        x=X[bad][:1], label=Y[bad][:1], transformed=Y2[bad][:1], expected=(Y @ Ro.T)[bad][:1])
                ctx.outcome(tag, gn, np.round(Y2, 3).tobytes())


def solve_draw(cls, args, D, X, want, s):
    """Draws that produce the inputs `want`, if inputs depend on the draws entrywise: unchanged
    entries keep their draw; the others are assumed scaled by a constant (measured)."""
    nz = np.abs(D) > 1e-9
    ratio = np.where(nz, X / np.where(nz, D, 1), np.nan)
    same = np.abs(want - X).max(0) < 1e-12      # columns the element does not touch
    D2 = D.copy()
    for c in range(D.shape[1]):
        if same[c]: continue
        r = ratio[:, c][nz[:, c]]
        if not len(r): r = ratio[:, ~same][nz[:, ~same]]
        k = np.median(r) if len(r) else 1.0
        D2[:, c] = want[:, c] / k
    return D2


def normal(ctx, tag, cls, D, args):
    """declared statistics commute with the group"""
    with ctx.scenario(f'{tag} stats') as s:
        if not s: return
        ds, _ = make(cls, D, *args)
        X, Y = np.asarray(ds.X, np.float64), np.asarray(ds.Y, np.float64)
        st = ds.stats
        s.check(len(st) in (2, 4), f'statistics have {len(st)} entries')
        mi, si = np.broadcast_to(np.asarray(st[0], float), X.shape[1:]), np.broadcast_to(np.asarray(st[1], float), X.shape[1:])
        s.check(np.isfinite(mi).all() and np.isfinite(si).all() and (si > 0).all(), 'input statistics not finite and positive', scale=si)
        pairs = [(mi, si, ds.rep_in, 'input')]
        if len(st) == 4:
            mo, so = np.broadcast_to(np.asarray(st[2], float), Y.shape[1:]), np.broadcast_to(np.asarray(st[3], float), Y.shape[1:])
            s.check(np.isfinite(mo).all() and np.isfinite(so).all() and (so >= 0).all(), 'output statistics not finite', scale=so)
            pairs.append((mo, so, ds.rep_out, 'output'))
        for gn, g in elements(ds.symmetry):
            for m, sc, rep, side in pairs:
                R = rho(rep(ds.symmetry), g)
                s.step()
                s.close(R @ m, m, f'{side} mean is moved by {gn}', 1e-4)
                s.close(R * sc[None, :], sc[:, None] * R, f'{side} scale does not commute with {gn}', 1e-4)
        ctx.state(tag, 'stats')
        ctx.outcome(tag, np.round(si, 4).tobytes())
    with ctx.scenario(f'{tag} items') as s:
        if not s: return
        ds, _ = make(cls, D, *args)
        for i in (0, len(ds) - 1, -1, slice(0, 3), np.arange(min(4, len(ds)))):
            x, y = ds[i]
            s.step()
            s.check(np.array_equal(x, ds.X[i]) and np.array_equal(y, ds.Y[i]), f'item {i} is not the pair of input and label rows')


# ------------------------------------------------------------------ regression
def inertia(ctx, k, tier):
    from emlp.datasets import Inertia
    from emlp.groups import O, SO
    r1 = np.array(list(itertools.product((-1., 0., 1.), repeat=3)))
    pol = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [-1, 2, .5], [0, 0, 0]], float)
    if k == 1:
        rows = [np.r_[m, r] for m in (-1., .5) for r in r1]
    elif k == 2:
        rows = [np.r_[m, a, b] for m in ((-1., .5), (2., 0.)) for a in r1 for b in (r1 if tier != 'quick' else pol)]
    else:
        # all positions of every pair of bodies, the others at a fixed generic place
        gen = np.array([[.3, -1.1, .7], [-.6, .2, 1.3], [.9, .4, -.8]])
        rows = []
        for i, j in itertools.combinations(range(k), 2):
            for a in pol:
                for b in pol:
                    P = np.array([gen[q % 3] * (1 + .1 * q) for q in range(k)])
                    P[i], P[j] = a, b
                    rows.append(np.r_[np.linspace(-1, 2, k), P.reshape(-1)])
    D = np.array(rows)
    ctx.sample(dict(dataset='Inertia', k=k, rows=len(D)))
    label_family(ctx, f'Inertia k={k} N={len(D)}', Inertia, D, (len(D), k), [O(3)])
    normal(ctx, f'Inertia k={k} N={len(D)}', Inertia, D, (len(D), k))
    for N in (1, 2, 3, 7):
        E = D[(np.arange(N) * 5 + 3) % len(D)]
        label_family(ctx, f'Inertia k={k} N={N}', Inertia, E, (N, k), [O(3)])
        normal(ctx, f'Inertia k={k} N={N}', Inertia, E, (N, k))


def o5(ctx, tier):
    from emlp.datasets import O5Synthetic
    from emlp.groups import O
    vs = [np.array(v, float) for v in itertools.product((-1, 0, 1), repeat=5) if any(v)]
    vs = vs[::5] if tier == 'quick' else vs[::2]
    rows = [np.r_[a, b * sc] for a in vs for b in vs for sc in ((1.,) if tier == 'quick' else (1., .37))]
    D = np.array(rows)
    ctx.sample(dict(dataset='O5Synthetic', rows=len(D)))
    label_family(ctx, f'O5 N={len(D)}', O5Synthetic, D, (len(D),), [O(5)])
    normal(ctx, f'O5 N={len(D)}', O5Synthetic, D, (len(D),))
    for N in (1, 2, 3, 5):
        E = D[(np.arange(N) * 211 + 17) % len(D)] * (1 + np.arange(N))[:, None]
        label_family(ctx, f'O5 N={N}', O5Synthetic, E, (N,), [O(5)])
        normal(ctx, f'O5 N={N}', O5Synthetic, E, (N,))


def particle(ctx, tier):
    from emlp.datasets import ParticleInteraction
    from emlp.groups import Lorentz
    e = np.eye(4)
    vs = [e[i] for i in range(4)] + [e[i] + e[j] for i in range(4) for j in range(i)] + ([] if tier == 'quick' else [e[i] - .5 * e[j] for i in range(4) for j in range(4) if i != j])
    if tier != 'quick': vs = vs[:14]
    rows = [np.concatenate(v) for v in itertools.product(vs, repeat=4)]
    D = np.array(rows)
    ctx.sample(dict(dataset='ParticleInteraction', rows=len(D)))
    label_family(ctx, f'Particle N={len(D)}', ParticleInteraction, D, (len(D),), [Lorentz()])
    normal(ctx, f'Particle N={len(D)}', ParticleInteraction, D, (len(D),))
    for N in (1, 2, 3, 4, 5):
        E = D[(np.arange(N) * 1231 + 917) % len(D)] + np.linspace(-1, 1, 16)
        label_family(ctx, f'Particle N={N}', ParticleInteraction, E, (N,), [Lorentz()])
        normal(ctx, f'Particle N={N}', ParticleInteraction, E, (N,))


def shapes(ctx, tier):
    """the real draws: shapes, symmetry of the statistics, default arguments"""
    from emlp import datasets as dd
    cases = [(dd.Inertia, (), 1024), (dd.O5Synthetic, (), 1024), (dd.ParticleInteraction, (), 1024)]
    cases += [(c, (n,), n) for c in (dd.Inertia, dd.O5Synthetic, dd.ParticleInteraction) for n in (1, 2, 3, 4, 5, 8, 16, 33, 100)]
    cases += [(dd.Inertia, (n, k), n) for n in (1, 3, 4, 10) for k in (1, 2, 3, 4, 5, 6, 7)]
    for cls, a, n in cases:
        with ctx.scenario(f'{cls.__name__}{a} real draws') as s:
            if not s: continue
            ds = cls(*a)
            G = ds.symmetry
            Vi, Vo = ds.rep_in(G), ds.rep_out(G)
            s.step()
            ctx.state(cls.__name__, a)
            s.check(len(ds) == n == len(ds.X) == len(ds.Y), f'{len(ds)} items instead of {n}')
            s.check(tuple(ds.X.shape) == (n, Vi.size()) and tuple(ds.Y.shape) == (n, Vo.size()),
                    f'data {ds.X.shape}->{ds.Y.shape} for declared representations of size {Vi.size()}->{Vo.size()}')
            s.check(ds.dim == Vi.size(), f'dim {ds.dim} instead of {Vi.size()}')
            s.check(np.isfinite(ds.X).all() and np.isfinite(ds.Y).all(), 'non-finite data')
            xs = np.asarray(ds.X).reshape(n, -1)
            s.check(len(np.unique(xs.round(9), axis=0)) == n, 'repeated inputs')


# ------------------------------------------------------------------ cubes
def perm_of(h, n):
    M = np.asarray(h @ np.eye(n))
    return M.argmax(1)


def pinned(cls, elems, perm, **kw):
    """build the dataset with Group.samples answering with `elems` (cyclically) and permutation = perm"""
    import emlp.groups as g
    orig = g.Group.samples
    calls = []

    def samples(self, N):
        calls.append(N)
        return np.stack([elems[i % len(elems)] for i in range(N)])
    oldp = np.random.permutation

    def permutation(x, *a):
        if isinstance(x, (int, np.integer)) and not a:
            p = perm(int(x))
            if sorted(p) == list(range(int(x))): return np.asarray(p)
        return oldp(x, *a)
    g.Group.samples = samples
    try:
        with seams.PinRandom(permutation=permutation):
            return cls(**kw)
    finally:
        g.Group.samples = orig


PERMS = {'identity': lambda n: list(range(n)), 'reverse': lambda n: list(range(n))[::-1], 'shift': lambda n: list(range(1, n)) + [0],
         'riffle': lambda n: list(range(0, n, 2)) + list(range(1, n, 2)), 'halves': lambda n: list(range(n // 2, n)) + list(range(n // 2)),
         'stride': lambda n: sorted(range(n), key=lambda i: (i * 37) % 101 * n + i)}


def inverted(ctx, tier):
    from emlp.datasets import InvertedCube
    ds0 = InvertedCube()
    G = ds0.symmetry
    V = ds0.rep_in(G)
    gens = [perm_of(h, G.d) for h in G.discrete_generators]
    els = {tuple(range(G.d))}
    todo = list(els)
    while todo:
        p = todo.pop()
        for q in gens:
            r = tuple(np.asarray(p)[q])
            if r not in els: els.add(r); todo.append(r)
    mats = [np.eye(G.d)[list(p)] for p in sorted(els)]
    rhos = [rho(V, m) for m in mats]

    def orbit(x): return {tuple(np.rint(R @ x).astype(int)) for R in rhos}
    solved = orbit(np.eye(6).reshape(-1))
    ctx.count('group_elements', len(mats))

    def judge(s, ds, where):
        X, Y = np.asarray(ds.X, float), np.asarray(ds.Y)
        s.check(X.shape[1] == V.size() and len(X) == len(Y) == len(ds), f'{where}: shapes {X.shape} {Y.shape}')
        onehot = X.reshape(len(X), 6, 6)
        s.check(np.allclose(onehot.sum(1), 1) and np.isin(np.rint(onehot * 1000) / 1000, (0, 1)).all(), f'{where}: rows are not one-hot colourings')
        classes = {}
        for x, y in zip(X, Y):
            s.step()
            key = tuple(np.rint(x).astype(int))
            ctx.state(key)
            good = key in solved
            if not s.check(int(y) == int(good), f'{where}: a {"solvable" if good else "mirrored"} configuration has label {int(y)}', x=x): return
            classes[int(y)] = classes.get(int(y), 0) + 1
        s.check(classes.get(0) == classes.get(1), f'{where}: classes are not balanced: {classes}')
        s.check(not any(k in solved for k in [tuple(np.rint(x).astype(int)) for x, y in zip(X, Y) if not y]), f'{where}: class 0 meets the solved orbit')
        bad = [x for x, y in zip(X, Y) if not y]
        if bad:
            orb = orbit(bad[0])
            s.check(all(tuple(np.rint(x).astype(int)) in orb for x in bad), f'{where}: broken configurations are not related by rotations')
    with ctx.scenario('InvertedCube train') as s:
        if s:
            s.check(len(mats) == 24, f'{len(mats)} rotations')
            judge(s, InvertedCube(), 'train')
            judge(s, InvertedCube(train=True), 'train=True')
    for pn, p in PERMS.items():
        for off in range(0, 24, 1 if tier != 'quick' else 5):
            with ctx.scenario(f'InvertedCube test perm={pn} offset={off}') as s:
                if s: judge(s, pinned(InvertedCube, mats[off:] + mats[:off], p, train=False), 'test')
        for e in range(24):
            if tier == 'quick' and pn not in ('reverse',): continue
            with ctx.scenario(f'InvertedCube test perm={pn} all moved by {e}') as s:
                if s: judge(s, pinned(InvertedCube, [mats[e]], p, train=False), 'test')
    for i in range(4 if tier == 'quick' else 20):
        with ctx.scenario(f'InvertedCube test real draws {i}') as s:
            if s:
                judge(s, InvertedCube(train=False), 'test')
                judge(s, InvertedCube(False), 'test')


class Rubik:
    def __init__(self):
        from emlp.groups import RubiksCube
        from sympy.combinatorics import Permutation, PermutationGroup
        self.G = RubiksCube()
        self.gens = [perm_of(h, 48) for h in self.G.discrete_generators]
        self.Perm = Permutation
        self.group = PermutationGroup([Permutation(list(map(int, p))) for p in self.gens])
        self.order = self.group.order()
        self.cubies = self.blocks()
        self.solved = np.repeat(np.arange(6), 8)          # colour of each sticker
        # colour pattern of each solved cubie -> its stickers
        self.pattern = {frozenset(self.solved[list(c)]): c for c in self.cubies}

    def blocks(self):
        """the cubies: smallest blocks of imprimitivity of the group"""
        def block(a, b):
            par = list(range(48))

            def f(x):
                while par[x] != x: x = par[x]
                return x
            par[f(a)] = f(b)
            ch = True
            while ch:
                ch = False
                for p in self.gens:
                    for x in range(48):
                        u, v = f(p[x]), f(p[f(x)])
                        if u != v: par[u] = v; ch = True
            return tuple(x for x in range(48) if f(x) == f(a))
        done, out = set(), []
        for orb in self.group.orbits():
            orb = sorted(orb)
            a = orb[0]
            best = min((block(a, b) for b in orb[1:]), key=len)
            bs, todo = {best}, [best]
            while todo:
                b = todo.pop()
                for p in self.gens:
                    c = tuple(sorted(p[x] for x in b))
                    if c not in bs: bs.add(c); todo.append(c)
            out += sorted(bs)
        return out

    def solvable(self, colours):
        """is the colouring (48 colours) a group move of the solved one?"""
        perm = np.full(48, -1)
        used = set()
        for c in self.cubies:
            cols = [int(colours[i]) for i in c]
            home = self.pattern.get(frozenset(cols))
            if home is None or len(home) != len(c) or len(set(cols)) != len(c) or home in used: return False
            used.add(home)
            for i in c:
                perm[i] = [j for j in home if self.solved[j] == colours[i]][0]
        return self.group.contains(self.Perm([int(x) for x in perm]))

    def mat(self, word):
        p = np.arange(48)
        for k, inv in word:
            q = self.gens[k]
            p = p[q] if not inv else p[np.argsort(q)]
        return np.eye(48)[p]


def judge_rubik(ctx, s, R, ds, where, cache={}):
    X, Y = np.asarray(ds.X, float), np.asarray(ds.Y)
    s.check(X.shape == (len(ds), 6 * 48) and Y.shape == (len(ds),), f'{where}: shapes {X.shape} {Y.shape}')
    S = X.reshape(len(X), 6, 48)
    s.check(np.allclose(S.sum(1), 1, atol=1e-4) and np.allclose(S, np.rint(S), atol=1e-4), f'{where}: rows are not one-hot colourings')
    s.check(np.allclose(S.sum(2), 8, atol=1e-4), f'{where}: a colour does not appear eight times')
    n = {0: 0, 1: 0}
    for x, y in zip(S.argmax(1), Y):
        s.step()
        key = x.tobytes()
        ctx.state(key)
        if key not in cache: cache[key] = R.solvable(x)
        good = cache[key]
        if not s.check(int(y) == int(good), f'{where}: a {"solvable" if good else "broken"} cube has label {int(y)}', colours=x): return
        n[int(y)] = n.get(int(y), 0) + 1
    s.check(n[0] == n[1], f'{where}: classes are not balanced: {n}')


def rubik(ctx, part, parts, tier):
    from emlp.datasets import BrokenRubiksCube
    R = Rubik()
    moves = [(k, inv) for k in range(len(R.gens)) for inv in (0, 1)]
    if part == 0:
        with ctx.scenario('Rubik structure') as s:
            if s:
                s.check(R.order == 43252003274489856000, f'group order {R.order}')
                s.check(sorted(len(c) for c in R.cubies) == [2] * 12 + [3] * 8, f'cubies {R.cubies}')
                s.check(R.solvable(R.solved), 'the solved cube is not recognised')
        for kw in ({}, {'train': True}):
            with ctx.scenario(f'Rubik train {kw}') as s:
                if s:
                    ds = BrokenRubiksCube(**kw)
                    judge_rubik(ctx, s, R, ds, 'train')
                    V = ds.rep_in(ds.symmetry)
                    s.check(V.size() == 288, f'declared size {V.size()}')
                    # the declared representation moves the stickers of every colour together
                    h = np.asarray(ds.symmetry.discrete_generators[0] @ np.eye(48))
                    y = V.rho(h) @ np.asarray(ds.X[0], np.float32)
                    s.check(R.solvable(np.asarray(y).reshape(6, 48).argmax(0)), 'a move of the solved cube through rep_in is not solvable')
        for i in range(2 if tier == 'quick' else 6):
            with ctx.scenario(f'Rubik test real draws {i}') as s:
                if s: judge_rubik(ctx, s, R, BrokenRubiksCube(train=False), 'test')
    words = [()] + [w for L in (1, 2) for w in itertools.product(moves, repeat=L)]
    if tier != 'quick':
        words += list(itertools.product(moves, repeat=3))
    words += [tuple(moves[(i * (j + 3) + j) % len(moves)] for i in range(20 + j)) for j in range(20)]
    step = 150 if tier == 'quick' else 100
    chunks = [words[i:i + step] for i in range(0, len(words), step)]
    jobs = [(c, p) for c in range(len(chunks)) for p in PERMS]
    for c, p in jobs[part::parts]:
        with ctx.scenario(f'Rubik test words {c} perm={p}') as s:
            if s:
                # the first half of the rows is solvable, the second broken: shift so that both see every word
                for off in ((0,) if tier == 'quick' else (0, len(chunks[c]) // 2)):
                    el = [R.mat(w) for w in chunks[c][off:] + chunks[c][:off]]
                    judge_rubik(ctx, s, R, pinned(BrokenRubiksCube, el, PERMS[p], train=False), 'test')
    ctx.sample(dict(words=len(words), chunks=len(chunks)))


def rubik_broken(ctx, tier):
    """the documented ways of breaking a solved cube"""
    from functools import partial
    from emlp import datasets as dd
    R = Rubik()
    flip, rot, swap = (getattr(dd, n, None) for n in ('UBedge_flip', 'ULBcorner_rot', 'LBface_swap'))
    if None in (flip, rot, swap): return
    solved = np.zeros((6, 48))
    solved[R.solved, np.arange(48)] = 1
    A = [('', lambda x: x), ('rot1', rot), ('rot2', partial(rot, i=2))]
    B = [('', lambda x: x), ('flip', flip)]
    C = [('', lambda x: x), ('swap', swap)]
    moves = [(k, inv) for k in range(len(R.gens)) for inv in (0, 1)]
    words = [()] + [(m,) for m in moves] + ([w for w in itertools.product(moves, repeat=2)] if tier != 'quick' else [])
    for (an, a), (bn, b), (cn, c) in itertools.product(A, B, C):
        name = f'{an}.{bn}.{cn}'
        with ctx.scenario(f'Rubik breaking {name}') as s:
            if not s: continue
            st = solved.copy()
            x = np.asarray(c(b(a(st))))
            s.check(np.array_equal(st, solved), f'{name} changed its argument')
            s.check(np.array_equal(x.sum(0), np.ones(48)) and np.array_equal(x.sum(1), 8 * np.ones(6)), f'{name} is not a colouring')
            for w in words:
                y = x @ R.mat(w)
                s.step()
                ctx.state(name, w)
                good = R.solvable(y.argmax(0))
                if not s.check(good == (name == '..'), f'{name} then {len(w)} moves gives a {"solvable" if good else "broken"} cube', colours=y.argmax(0)): break
