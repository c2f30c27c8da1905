"""C11: random samples are elements of the group."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('The random draws are enumerated: every integer draw within the drawn range for one generator (all combinations of a reduced range for several), '
        'all 100 order seeds for groups with several generators, real draws from {0,+-e_i,+-1,+-2.5 patterns}; every batch size of the list. Each sample is '
        'compared with the complete element list of the finite group, or must fix every invariant of all tensor powers up to rank 4 and the component '
        'conditions; the set of sampled elements/components must be the whole group.')
ASSUMPTIONS = ['a matrix fixing all mixed tensor invariants up to rank 4 (and the stated sign conditions) is in the group',
               'draws are made through numpy\'s module level generators (otherwise the draws are sampled, membership is still decided)']

# (sign det, sign g00) distinguish the components of these groups
LORENTZ = ('SO11p()', 'SO13p()', 'SO13()', 'O11()', 'O13()', 'Lorentz()', 'Parity()', 'TimeReversal()')


def plan(tier):
    names = [n for n in ref.table() if ref.group(n).d <= 8] + (['Cube()'] if 'Cube()' in ref.table() else [])
    names = list(dict.fromkeys(names))
    names.sort(key=lambda n: (ref.group(n).d, len(ref.group(n).disc), len(ref.group(n).lie)))
    k = 16 if tier == 'quick' else 16
    out = [('run', dict(names=names[i::k], tier=tier)) for i in range(k)]
    big = [n for n in ref.table() if ref.group(n).d > 8]
    out += [('run', dict(names=[n], tier=tier)) for n in big]
    return out


class Draws:
    """enumerated answers; falls through to the real generator for unexpected calls"""
    def __init__(self, z, k, seed):
        self.z, self.k, self.seed = z, k, seed
        self.hit_z = self.hit_k = 0
        self.other = False

    def randn(self, orig):
        def f(*shape):
            if len(shape) == 2 and self.z is not None and shape == self.z.shape:
                self.hit_z += 1
                return self.z.copy()
            if self.z is not None and shape and self.z.size and np.prod(shape):      # draws of another layout: the same values, in order
                self.other = True
                return np.resize(self.z, shape) if len(shape) != 2 or shape[1] > self.z.shape[1] else np.resize(self.z[:, :shape[1]], shape)
            return orig(*shape)
        return f

    def randint(self, orig):
        def f(*a, **kw):
            size = kw.get('size', a[2] if len(a) > 2 else None)
            if size is None and not (len(a) > 2):
                lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) > 1 else (None, None)
                if lo is not None and lo <= self.seed < hi: return self.seed
                return orig(*a, **kw)
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) > 1 else (None, None)
            if self.k is not None and tuple(np.atleast_1d(size)) == self.k.shape and lo is not None:
                self.hit_k += 1
                return np.clip(self.k, lo, hi - 1).copy()
            return orig(*a, **kw)
        return f

    def sample(self, G, N):
        r, i = np.random.randn, np.random.randint
        np.random.randn, np.random.randint = self.randn(r), self.randint(i)
        try:
            return np.asarray(G.samples(N))
        finally:
            np.random.randn, np.random.randint = r, i


def zgrid(D):
    """real draws"""
    rows = [np.zeros(D)]
    for i in range(D):
        for v in (1., -1., 2.5): rows.append(v * np.eye(D)[i])
    rows += [np.ones(D), -np.ones(D), 1.5 * np.cos(1 + np.arange(D) * 1.7), -2 * np.sin(1 + np.arange(D) * 1.1)]
    return np.array(rows).reshape(len(rows), D)


def kgrid(M, tier, cap):
    """integer draws (rows of shape (M,3))"""
    if M == 0: return np.zeros((1, 0, 3), int)
    vals = range(-5, 5)
    if M == 1: return np.array(list(itertools.product(vals, repeat=3))).reshape(-1, 1, 3)
    for r in ((-5, -3, -2, -1, 0, 1, 2, 4), (-5, -2, -1, 0, 1, 4), (-2, -1, 0, 1), (-1, 0, 1), (0, 1)):
        if len(r)**(3 * M) <= cap: return np.array(list(itertools.product(r, repeat=3 * M))).reshape(-1, M, 3)
    # products of few non-trivial entries: at most two of the 3M positions, all values
    rows = [np.zeros(3 * M, int)]
    for i in range(3 * M):
        for v in vals:
            if v: rows.append(v * np.eye(3 * M, dtype=int)[i])
    for i in range(3 * M):
        for j in range(i):
            for v, w in ((1, 1), (1, -1), (-1, 2), (-5, 4)):
                r = np.zeros(3 * M, int); r[i], r[j] = v, w
                rows.append(r)
    for t in range(64): rows.append(((np.arange(3 * M) * (2 * t + 1) + t * t) % 10) - 5)
    return np.array(rows).reshape(-1, M, 3)


def keys(g, S):
    c = np.sign(np.real(np.linalg.det(S.astype(complex)))).astype(int)
    t = np.sign(np.real(S[:, 0, 0])).astype(int) if g.name in LORENTZ or g.name.startswith('Scaling') else np.zeros(len(S), int)
    return c, t


def run(ctx, names, tier):
    for nm in names:
        g = ref.group(nm)
        with ctx.scenario(nm) as s:
            if s: one(ctx, s, g, tier)


def one(ctx, s, g, tier):
    G = g.make()
    d, D, M = g.d, len(G.lie_algebra), len(G.discrete_generators)
    cplx = any(np.iscomplexobj(np.asarray(a @ np.eye(d, dtype=np.float32))) for a in list(G.lie_algebra) + list(G.discrete_generators))
    K = kgrid(M, tier, (1000 if tier == 'quick' and len(g.lie) else 5000) if d <= 8 or len(g.lie) + len(g.disc) < 4 else 100)
    Z = zgrid(D)
    N = max(len(K), len(Z))
    if len(g.lie) and len(g.disc): N = max(N, min(len(K), 40) * len(Z))
    idx = np.arange(N)
    if len(K) >= len(Z): kk, zz = K[idx % len(K)], Z[(idx * 7 + idx // len(Z)) % len(Z)]
    else: kk, zz = K[(idx // len(Z)) % len(K)], Z[idx % len(Z)]
    if M == 0: kk = np.zeros((N, 0, 3), int)
    finite = not len(g.lie)
    seeds = [0] if M < 2 else ([0, 1, 2, 3, 7, 99] if tier == 'quick' else list(range(100)))
    member = Member(g, tier)
    seen, comps = set(), set()
    for seed in seeds:
        S = Draws(zz, kk, seed).sample(G, N)
        s.step(N)
        ctx.state(nm := g.name, seed, N)
        if not s.check(S.shape == (N, d, d), f'samples({N}) has shape {S.shape}'): return
        if not s.check(np.all(np.isfinite(S)), 'non-finite samples', z=zz[~np.isfinite(S).all((1, 2))][:3], k=kk[~np.isfinite(S).all((1, 2))][:3]): return
        s.check(np.iscomplexobj(S) == cplx, f'samples of dtype {S.dtype} for a {"complex" if cplx else "real"} group')
        member.check(s, S, seen, comps)
        S0 = S.astype(complex)
        for c in itertools.islice(seen, 50): ctx.outcome(g.name, c)
    # all elements / components
    if finite and member.E is not None and len(member.E) <= 24:
        s.check(len(seen) == len(member.E), f'only {len(seen)} of the {len(member.E)} elements can be drawn')
    if not finite:
        s.check(comps == member.comps, f'components {sorted(comps)} drawn, documented {sorted(member.comps)}')
    # every Lie direction
    if D and len(g.lie):
        zz = np.zeros((max(N, 2 * D), D)); zz[np.arange(D), np.arange(D)] = .05; zz[D + np.arange(D), np.arange(D)] = -.05
        dr = Draws(zz, np.zeros((len(zz), M, 3), int), 0)
        S = dr.sample(G, len(zz))
        s.step(2 * D)
        if dr.hit_z and (dr.hit_k or not M):
            X = (S[:D] - S[D:2 * D]).reshape(D, d * d)
            X = np.concatenate([np.real(X), np.imag(X)], 1)
            s.check(np.linalg.matrix_rank(X, tol=1e-3 * np.abs(X).max()) == np.linalg.matrix_rank(np.concatenate([np.real(g.lie).reshape(len(g.lie), -1), np.imag(g.lie).reshape(len(g.lie), -1)], 1), tol=1e-6),
                    'some directions of the Lie algebra are never drawn')
    # the drawn elements have no common fixed vectors beyond the invariants of the group
    if D or not finite:
        nrm = np.abs(S0).max((1, 2)) * np.abs(np.linalg.inv(S0)).max((1, 2))
        o = np.argsort(nrm, kind='stable')
        o = o[:max(1, int((nrm < 100).sum()))]
        X = S0[o[::max(1, len(o) // 100)]]
        I = np.linalg.inv(X).transpose(0, 2, 1)
        for p, q in ((1, 0), (0, 1), (1, 1), (2, 0)):
            if d**(p + q) > 64: continue
            C, B = ref.invariants(('tpq', p, q), [g])
            R = X if p else I
            if p + q == 2: R = np.einsum('nij,nkl->nikjl', X, I if q else X).reshape(len(X), d * d, d * d)
            W = np.concatenate([(r - np.eye(len(r))) / max(1, np.abs(r).max()) for r in R])
            sv = np.linalg.svd(W, compute_uv=False)
            fixed = int((sv < 3e-4 * max(1, np.sqrt(len(X)) / 10)).sum())
            s.check(fixed <= B.shape[1], f'all drawn elements fix {fixed} vectors of T({p},{q}), the group fixes {B.shape[1]}', sv=sv[-B.shape[1] - 3:])
    # batch sizes and the real generators
    for n in (1, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 8, 16):
        S = np.asarray(G.samples(n))
        s.step(n)
        if s.check(S.shape == (n, d, d), f'samples({n}) has shape {S.shape}'): member.check(s, S, set(), set())
    S = np.asarray(G.sample())
    if s.check(S.shape == (d, d), f'sample() has shape {S.shape}'): member.check(s, S[None], set(), set())
    # the group does not change by drawing
    ctx.sample({'group': g.name, 'draws': int(N * len(seeds)), 'distinct elements': len(seen)})


class Member:
    def __init__(self, g, tier):
        self.g = g
        self.E = self.perm = None
        self.inv = []
        self.comps = set()
        if not len(g.lie):
            E = g.closure(2000)
            if E is not None and not (g.permutation() and len(E) > 800): self.E = np.array(list(E.values())); return
            from sympy.combinatorics import Permutation, PermutationGroup
            self.perm = PermutationGroup([Permutation([int(np.argmax(r)) for r in np.real(h)]) for h in g.disc])
            return
        for p in range(5):
            for q in range(5 - p):
                if not p + q or g.d**(p + q) > (260 if tier == 'quick' else 700): continue
                C, B = ref.invariants(('tpq', p, q), [g])
                if B.shape[1]: self.inv.append((p, q, B))
        E = ref.closure(g.disc, g.d, 500) if len(g.disc) else {0: np.eye(g.d)}
        A = np.array(list(E.values()))
        c, t = keys(g, A)
        self.comps = set(zip(c.tolist(), t.tolist()))
        if np.iscomplexobj(np.array(g.lie)): self.comps = None

    def check(self, s, S, seen, comps):
        g = self.g
        if self.E is not None:
            U = np.unique(np.round(S.astype(complex), 2).reshape(len(S), -1), axis=0) + 0
            S0 = S.reshape(len(S), -1).astype(complex)
            E = self.E.reshape(len(self.E), -1).astype(complex)
            for i in range(0, len(S0), 512):
                X = S0[i:i + 512]
                D2 = (np.abs(X)**2).sum(1)[:, None] + (np.abs(E)**2).sum(1)[None] - 2 * np.real(X @ E.conj().T)
                j = D2.argmin(1)
                err = np.abs(X - E[j]).max(1)
                if not s.check(err.max() < 5e-3, f'sample {i + int(err.argmax())} is not an element of the group', got=X[err.argmax()].reshape(g.d, g.d)): return
                seen.update(j.tolist())
            return
        if self.perm is not None:
            from sympy.combinatorics import Permutation
            R = np.real(S)
            pm = np.round(R)
            if not s.check(np.abs(S - pm).max() < 1e-3 and (pm.sum(1) == 1).all() and (pm.sum(2) == 1).all() and set(np.unique(pm)) <= {0., 1.}, 'sample is not a permutation matrix'): return
            ps = {tuple(r.tolist()) for r in pm.argmax(2)}
            for p in sorted(ps)[:400]:
                if not s.check(self.perm.contains(Permutation(list(p))), 'sampled permutation is not in the group'): return
            seen.update(ps)
            return
        S = S.astype(complex)
        I = np.linalg.inv(S).transpose(0, 2, 1)
        for p, q, B in self.inv:
            if g.d**(p + q) > 20 and len(S) > 60:
                step = max(1, len(S) // 60)
                sel = np.arange(0, len(S), step)
            else: sel = np.arange(len(S))
            for i in range(0, len(sel), 256):
                j = sel[i:i + 256]
                Y = np.broadcast_to(B.astype(complex), (len(j),) + B.shape)
                Y = Y.reshape((len(j),) + (g.d,) * (p + q) + (B.shape[1],))
                for a in range(p + q):
                    Mx = S[j] if a < p else I[j]
                    Y = np.moveaxis(np.einsum('nij,nj...->ni...', Mx, np.moveaxis(Y, 1 + a, 1)), 1, 1 + a)
                err = np.abs(Y.reshape((len(j),) + B.shape) - B[None]).max((1, 2))
                sc = np.abs(S[j]).max((1, 2))**(p) * np.abs(I[j]).max((1, 2))**(q)
                ok = err < 2e-3 * np.maximum(1, sc)
                if not s.check(ok.all(), f'a sample moves an invariant of T({p},{q})', err=err[~ok][:3], M=S[j][~ok][:1]): return
        if self.comps is None: self.comps = set(); comps.clear()
        c, t = keys(g, S)
        got = set(zip(c.tolist(), t.tolist()))
        if self.comps:
            s.check(got <= self.comps, f'sample outside the components of the group: {sorted(got - self.comps)}')
            comps |= got
