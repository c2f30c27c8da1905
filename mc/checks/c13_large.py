"""C13: problems solved iteratively give the same solutions as direct solving."""
import numpy as np
from mc import ref, lib, seams

RULE = ('(a) the iterative solver on constructed constraints: every number of solutions 0..n (n=24; quick: also n=6 and 9, smaller than the starting rank), real '
        'and complex, three spectra (including ones that make the first learning rates diverge), enumerated initialisations; (b) on the constraint operators of '
        'group representations against the direct null space; (c) representations whose constraints exceed the direct solver\'s threshold, through '
        'equivariant_basis/equivariant_projector, against orbit counts or known invariants; (d) the lazy constraint operator (and its transpose and adjoint) '
        'against the dense reference constraint for the complete expression family.')
ASSUMPTIONS = ['the initial matrix of the solver is drawn with np.random.randn (otherwise real draws are used)', 'null space tolerance 1e-4 relative, result tolerance 5e-3']
BUDGET = {'quick': 420}


def plan(tier):
    q = tier == 'quick'
    out = []
    for n in (24, 9, 6) if q else (24, 9, 6, 40, 60):
        for cplx in (0, 1):
            for i in range(2 if n > 9 else 1): out.append(('made', dict(n=n, cplx=cplx, part=i, parts=2 if n > 9 else 1, tier=tier)))
    big = ['RubiksCube', 'Scaling(2)13', 'Sp(2)6'] if q else ['RubiksCube', 'Scaling(2)13', 'Sp(2)6', 'SL(2)13', 'cycles80', 'RubiksCubeSum', 'U(2)6']
    out = [('large', dict(which=w)) for w in big] + out
    out += [('reps', dict(i=i, k=6, tier=tier)) for i in range(6)]
    out += lib.shards('constraint', [('d1', 48, lib.allgroups(8), 1), ('mult', 16 if q else 48, ['SL(2)', 'U(2)', 'S(3)', 'O(2)'], 2), ('d2s', 12 if q else 32, ['SL(2)', 'SO11p()'], 3)])
    return out


class Init:
    """enumerated initialisations"""
    def __init__(self, t): self.t, self.hits = t, 0

    def __call__(self, *shape):
        self.hits += 1
        rs = np.random.RandomState(101 * self.t + 7 * self.hits)
        X = rs.randn(*shape)
        if self.t % 3 == 1: X = np.round(X * 2) / 2 + 1e-2 * X
        if self.t % 3 == 2: X = 5 * X
        return X


def solve(C, t):
    from emlp.reps.representation import krylov_constraint_solve
    old = np.random.randn
    np.random.randn = Init(t)
    try: return np.asarray(krylov_constraint_solve(C))
    finally: np.random.randn = old


def null(C, tol=1e-4):
    U, S, Vh = np.linalg.svd(C, full_matrices=True)
    r = int((S > tol * max(1, S.max(initial=0))).sum())
    return Vh[r:].conj().T


def judge(s, Q, N, what):
    if not s.check(Q.shape == N.shape, f'{what}: {Q.shape[-1]} solutions instead of {N.shape[1]}'): return
    if not N.shape[1]: return
    s.close(Q.conj().T @ Q, np.eye(N.shape[1]), f'{what}: orthonormal', tol=5e-3)
    s.close(N @ (N.conj().T @ Q), Q, f'{what}: in the invariant space', tol=5e-3)


EXPLICIT = (Exception,)       # the solver may give up explicitly when its learning rate is too high


def made(ctx, n, cplx, part, parts, tier):
    from emlp.reps.linear_operators import lazify
    spectra = ('flat', 'spread', 'big') if tier == 'quick' else ('flat', 'spread', 'big', 'huge')
    for k in range(part, n + 1, parts):
        for sp in spectra:
            for t in ((0,) if tier == 'quick' and sp != 'flat' else (0, 1, 2)[:2 if tier == 'quick' else 3]):
                with ctx.scenario(f'{n} unknowns, {k} solutions, {sp} spectrum, {"complex" if cplx else "real"}, init {t}', allow=EXPLICIT if sp in ('big', 'huge') else ()) as s:
                    if not s: continue
                    rs = np.random.RandomState(1000 * n + k)
                    A = rs.randn(n, n) + (1j * rs.randn(n, n) if cplx else 0)
                    B = rs.randn(n + 3, n) + (1j * rs.randn(n + 3, n) if cplx else 0)
                    U, V = np.linalg.qr(A)[0], np.linalg.qr(B)[0]
                    m = n - k
                    sv = {'flat': np.ones(m), 'spread': np.linspace(.6, 2.5, m), 'big': 19.55 + .05 * np.arange(m) / n, 'huge': np.linspace(80, 150, m)}[sp]
                    C = (V[:, :m] * sv) @ U[:, :m].conj().T
                    s.step(); ctx.state(s.name); ctx.outcome(n, k, cplx)
                    judge(s, solve(lazify(lib.jn(C)), t), null(C), s.name)
                    ctx.sample({'case': s.name})


REPS = [('S(3)', ('tpq', 3, 0)), ('S(4)', ('tpq', 2, 0)), ('S(4)', ('tpq', 3, 0)), ('Z(4)', ('tpq', 2, 0)), ('Z(4)', ('tpq', 3, 0)), ('O(3)', ('tpq', 4, 0)), ('SO(3)', ('tpq', 3, 0)), ('SO(3)', ('tpq', 4, 0)),
        ('SL(2)', ('tpq', 2, 2)), ('SL(2)', ('tpq', 3, 1)), ('SL(2)', ('tpq', 3, 0)), ('SO11p()', ('tpq', 2, 2)), ('SO11p()', ('tpq', 2, 0)), ('SO13p()', ('tpq', 1, 1)), ('U(2)', ('tpq', 1, 1)), ('U(2)', ('tpq', 2, 2)),
        ('SU(2)', ('tpq', 2, 0)), ('SU(2)', ('tpq', 4, 0)), ('Sp(1)', ('tpq', 4, 0)), ('Sp(2)', ('tpq', 2, 0)), ('GL(2)', ('tpq', 2, 2)), ('Scaling(2)', ('tpq', 1, 1)), ('Scaling(2)', ('tpq', 2, 0)), ('D(4)', ('tpq', 4, 0)),
        ('C(4)', ('tpq', 4, 0)), ('Trivial(4)', ('tpq', 1, 0)), ('Trivial(3)', ('tpq', 2, 0)), ('ZksZnxZn(2,2)', ('tpq', 2, 0)), ('DkeR3(3)', ('tpq', 3, 0)), ('O(2)', ('tpq', 5, 0)), ('S(2)', ('tpq', 5, 0)), ('SL(2)', ('tpq', 3, 3))]


def reps(ctx, i, k, tier):
    for nm, e in REPS[i::k]:
        g = ref.group(nm)
        for t in range(2 if tier == 'quick' else 6):
            with ctx.scenario(f'{nm}: {ref.show(e)} init {t}') as s:
                if not s: continue
                r = lib.build(e, g.make())
                C, N = ref.invariants(e, [g])
                s.step(); ctx.state(s.name); ctx.outcome(N.shape)
                judge(s, solve(r.constraint_matrix(), t), np.asarray(N), s.name)


def orbits2(g, sign=1):
    """invariants of V (x) V for a permutation group: indicator vectors of the orbits of pairs"""
    d = g.d
    perms = [np.argmax(np.real(h), 1) for h in g.disc]
    lab = -np.ones((d, d), int)
    n = 0
    for a in range(d):
        for b in range(d):
            if lab[a, b] >= 0: continue
            lab[a, b] = n
            st = [(a, b)]
            while st:
                x, y = st.pop()
                for p in perms:
                    z = (p[x], p[y])
                    if lab[z] < 0: lab[z] = n; st.append(z)
            n += 1
    N = np.zeros((d * d, n)); N[np.arange(d * d), lab.reshape(-1)] = 1
    return N / np.linalg.norm(N, axis=0)


def large(ctx, which):
    import emlp.reps as R, emlp.groups as G
    with ctx.scenario(f'large {which}') as s:
        if not s: return
        import signal; signal.alarm(600)
        if which == 'RubiksCube' or which == 'RubiksCubeSum':
            g = ref.group('RubiksCube()'); r = R.V(g.make())**2
            N = orbits2(g)
            if which == 'RubiksCubeSum':
                r = 2 * r + R.V(g.make()) + R.Scalar
                o = np.linalg.svd(np.concatenate([h - np.eye(48) for h in g.disc]))[2]
                V1 = null(np.concatenate([h - np.eye(48) for h in g.disc]))
                from mc.checks.c12_operators import bd
                N = np.real(bd(N, N, V1, np.ones((1, 1))))
        elif which == 'cycles80':
            perms = [np.roll(np.arange(80), 1), np.r_[1, 0, np.arange(2, 80)]]
            class P(G.Group):
                def __init__(self):
                    self.discrete_generators = np.array([ref.permmat(p) for p in perms]); super().__init__()
            r = R.V(P())**2
            a, b = np.eye(80).reshape(-1), (1 - np.eye(80)).reshape(-1)
            N = np.array([a / np.linalg.norm(a), b / np.linalg.norm(b)]).T
        elif which == 'Scaling(2)13':
            r = R.V(G.Scaling(2))**13; N = np.zeros((2**13, 0))
        elif which == 'SL(2)13':
            r = R.V(G.SL(2))**13; N = np.zeros((2**13, 0))
        elif which == 'Sp(2)6':
            r = R.V(G.Sp(2))**6
            J = np.kron([[0, 1], [-1, 0]], np.eye(2))
            N = pairings(J, 6, 4)
        elif which == 'U(2)6':
            r = R.T(6, 6, G.U(2)); N = dualpairs(2, 6)
        s.step(); ctx.state(s.name)
        C = r.constraint_matrix() if not which.endswith('Sum') else None
        if C is not None: s.check(C.shape[0] * C.shape[1] > 3e7, 'not above the threshold of the direct solver (harness)')
        old = np.random.randn
        np.random.randn = Init(0)
        try:
            Q = np.asarray(r.equivariant_basis())
            P = r.equivariant_projector()
            judge(s, Q, N, which)
            v = lib.probe(len(N))
            s.close(np.asarray(P @ lib.jn(v)), N @ (N.conj().T @ v), 'projector', tol=5e-3)
        finally: np.random.randn = old
        ctx.outcome(which, N.shape)
        ctx.sample({'large': which, 'unknowns': len(N), 'solutions': N.shape[1]})


def pairings(J, k, d):
    """invariants of the form J in V^k: all ways to pair the k indices"""
    import string
    def match(idx):
        if not idx: yield []; return
        a = idx[0]
        for j in range(1, len(idx)):
            for m in match(idx[1:j] + idx[j + 1:]): yield [(a, idx[j])] + m
    vs = []
    Ji = np.linalg.inv(J)
    for m in match(list(range(k))):
        L = string.ascii_letters[:k]
        vs.append(np.einsum(','.join(L[a] + L[b] for a, b in m) + '->' + L, *[Ji] * len(m)).reshape(-1))
    U, S, _ = np.linalg.svd(np.array(vs).T, full_matrices=False)
    return U[:, S > 1e-6 * S[0]]


def dualpairs(d, p):
    import itertools, string
    L = string.ascii_letters
    vs = []
    for pi in itertools.permutations(range(p)):
        vs.append(np.einsum(','.join(L[a] + L[p + pi[a]] for a in range(p)) + '->' + L[:2 * p], *[np.eye(d)] * p).reshape(-1))
    U, S, _ = np.linalg.svd(np.array(vs).T, full_matrices=False)
    return U[:, S > 1e-6 * S[0]]


def constraint(ctx, exprs, maxsize, groups, chunk):
    # sums are solved term by term and scalars directly, they have no constraint operator of their own
    lib.run_family(ctx, constraint1, exprs, maxsize, groups, chunk, skip=lambda g, e: len(lib.terms(e)) != 1 or lib.terms(e) == ((),))


def constraint1(ctx, s, G, g, e, rep):
    C = rep.constraint_matrix()
    D = np.asarray(ref.constraints(e, [g]))
    n = ref.size(e, [g.d])
    ctx.outcome(D.shape, np.round(D, 2).tobytes())
    if not len(D): D = np.zeros((1, n))
    M = lib.dense(C)
    if not s.check(M.shape[1] == n, f'{M.shape[1]} unknowns instead of {n}'): return
    # the same solutions (the order of the rows is free)
    N1, N2 = null(M.astype(complex)), null(D.astype(complex))
    if s.check(N1.shape == N2.shape, f'dense constraints have {N1.shape[1]} solutions instead of {N2.shape[1]}'):
        s.close(N2 @ (N2.conj().T @ N1), N1, 'solutions of the dense constraints')
    v, V = lib.probe(n, cplx=True), lib.probe(n, 2, t=1)
    s.close(np.asarray(C @ lib.jn(v)), M @ v, 'lazy constraint on a vector')
    s.close(np.asarray(C @ lib.jn(V)), M @ V, 'lazy constraint on a matrix')
    w = lib.probe(M.shape[0], cplx=True)
    s.close(np.asarray(C.T @ lib.jn(w)), M.T @ w, 'transpose of the lazy constraint')
    s.close(np.asarray(C.H @ lib.jn(w)), M.conj().T @ w, 'adjoint of the lazy constraint')
