"""C22: user-defined groups and representations obey the same guarantees."""
import itertools
import numpy as np
from scipy.linalg import expm
from mc import ref, lib, seams, nets, customs
from mc.checks import c01_basis, c14_linear

RULE = ('Groups: every group generated by one Lie algebra element with entries -1,0,1 (all 81), by one invertible matrix with entries -1,0,1 (all 48), by every set of at most two '
        'permutations of 3 (4) points, and listed combinations, complex and 3x3 matrices, each given in every form (arrays of several types, lists, documented LinearOperator '
        'subclasses, library operators), all as instances of one user class without arguments, x expressions. Representations: every listed matrix function x group x '
        'expressions mixing it with V and Scalar (instantiated or not). Sizes, matrices, derivatives, bases and projectors are compared with the independent float64 model; '
        'layers are decided on every unit parameter.')
ASSUMPTIONS = ['single precision tolerances 2e-3; generators with small integer (or unit complex) entries so that the documented rank cut-off separates']
BUDGET = {'quick': 400, 'thorough': 2400}
V, T1, S = ('V', 0), ('T', ('V', 0)), ('1',)
R = ('V', 1)

ESMALL = [V, T1, ('+', V, T1), ('*', V, T1), ('*', V, V), ('*', T1, T1), ('*', ('+', V, S), ('+', S, T1))]
EMORE = ESMALL + [('**', V, 3), ('>>', V, ('*', V, V)), ('+', ('n*', 2, T1), ('*', V, V)), ('T', ('*', ('+', S, V), V)), ('tpq', 1, 2), ('<<', ('+', V, S), V)]


# ------------------------------------------------------------------ forms of the generators
def operators():
    """LinearOperator subclasses as the documentation writes them"""
    from emlp.reps.linear_operator_base import LinearOperator

    class Full(LinearOperator):
        def __init__(self, M):
            self.M = np.asarray(M)
            self.shape = self.M.shape

        def _matmat(self, V): return self.M @ V

        def _matvec(self, V): return self.M @ V

        def _adjoint(self): return Full(self.M.conj().T)

    class MatvecOnly(LinearOperator):
        def __init__(self, M):
            self.M = np.asarray(M)
            self.shape = self.M.shape

        def _matvec(self, v): return self.M @ v

        def _rmatvec(self, v): return self.M.conj().T @ v

    class Inited(LinearOperator):
        def __init__(self, M):
            self.M = np.asarray(M)
            super().__init__(np.complex64 if np.iscomplexobj(M) else np.float32, self.M.shape)

        def _matmat(self, V): return self.M @ V

        def _adjoint(self): return Inited(self.M.conj().T)

    class Perm(LinearOperator):
        def __init__(self, perm):
            self.perm = perm
            self.shape = (len(perm), len(perm))

        def _matmat(self, V): return V[self.perm]

        def _matvec(self, V): return V[self.perm]

        def _adjoint(self): return Perm(np.argsort(self.perm))
    return Full, MatvecOnly, Inited, Perm


_cls = []


def group_class():
    if not _cls:
        from emlp.groups import Group

        class Mine(Group):
            """a user's group: generators set, init called"""
            def __init__(self, disc, lie):
                if disc is not None: self.discrete_generators = disc
                if lie is not None: self.lie_algebra = lie
                super().__init__()
        _cls.append(Mine)
    return _cls[0]


FORMS = ['dense', 'float32', 'int', 'jnp', 'list', 'doc', 'inited', 'matvec', 'lazify', 'perm', 'docperm', 'mix', 'prod', 'sum', 'scaled', 'adjoint', 'transpose']


def given(Ms, form):
    """the generators in one of the documented forms (None: no such form)"""
    import jax.numpy as jnp
    from emlp.reps.linear_operators import lazify, LazyPerm
    if len(Ms) == 0: return None
    Ms = [np.asarray(M) for M in Ms]
    cplx = any(np.iscomplexobj(M) for M in Ms)
    Full, MatvecOnly, Inited, Perm = operators()
    if form == 'dense': return np.array(Ms)
    if form == 'float32': return np.array(Ms).astype(np.complex64 if cplx else np.float32)
    if form == 'int':
        if cplx or any(np.abs(M - np.rint(M)).max() > 0 for M in Ms): return ()
        return np.array(Ms).astype(int)
    if form == 'jnp': return jnp.asarray(np.array(Ms))
    if form == 'list': return list(Ms)
    if form == 'doc': return [Full(M) for M in Ms]
    if form == 'inited': return [Inited(M) for M in Ms]
    if form == 'matvec': return [MatvecOnly(M) for M in Ms]
    if form == 'lazify': return [lazify(jnp.asarray(M)) for M in Ms]
    if form in ('perm', 'docperm'):
        if any(((M != 0) & (M != 1)).any() or (M.sum(0) != 1).any() or (M.sum(1) != 1).any() for M in Ms): return ()
        return [(LazyPerm if form == 'perm' else Perm)(M.real.argmax(1)) for M in Ms]
    if form in ('prod', 'sum', 'scaled', 'adjoint', 'transpose'):       # operators composed by the user
        d, lz = len(Ms[0]), lambda M: lazify(jnp.asarray(M))
        K = np.eye(d) + np.triu(np.ones((d, d)), 1) * .5
        if form == 'prod': return [lz(M @ np.linalg.inv(K)) @ lz(K) for M in Ms]
        if form == 'sum': return [lz(M - K) + lz(K) for M in Ms]
        if form == 'scaled': return [2 * lz(M / 2) for M in Ms]
        if form == 'adjoint': return [Full(M.conj().T).H for M in Ms]
        return [lz(M.T).T for M in Ms]
    if form == 'mix': return [Full(M) if i % 2 == 0 else jnp.asarray(M) for i, M in enumerate(Ms)]


class CG(ref.RG):
    def __init__(self, name, disc=(), lie=()):
        d = (list(disc) + list(lie))[0].shape[0]
        dt = complex if any(np.iscomplexobj(m) for m in list(disc) + list(lie)) else float
        super().__init__(name, None, ref._stack(list(lie), d, dt), ref._stack(list(disc), d, dt), d)

    def make(self, form='dense'):
        disc, lie = given(self.disc_(), form), given(self.lie_(), form)
        if (disc is not None and isinstance(disc, tuple)) or (lie is not None and isinstance(lie, tuple)): return None
        return group_class()(disc, lie)

    def disc_(self): return [m if self.complex else m.real for m in self.disc]

    def lie_(self): return [m if self.complex else m.real for m in self.lie]


# ------------------------------------------------------------------ families of groups
def all22(): return [np.array(m, float).reshape(2, 2) for m in itertools.product((-1, 0, 1), repeat=4)]


def families(tier):
    """name -> list of groups (deterministic)"""
    out = {}
    A = all22()
    H = [m for m in A if abs(np.linalg.det(m)) > .5]
    nm = lambda m: ','.join(f'{x:g}' for x in m.reshape(-1))
    out['lie2'] = [CG(f'lie[{nm(a)}]', lie=[a]) for a in A]
    out['disc2'] = [CG(f'disc[{nm(h)}]', disc=[h]) for h in H]
    core = [np.array(m, float) for m in ([[0, 1], [-1, 0]], [[1, 0], [0, -1]], [[0, 1], [0, 0]], [[1, 0], [0, 0]], [[1, 0], [0, 1]])]
    hs = [np.array(m, float) for m in ([[0, 1], [1, 0]], [[1, 1], [0, 1]], [[-1, 0], [0, 1]], [[0, -1], [1, 1]], [[-1, 0], [0, -1]], [[1, 1], [1, -1]])]
    out['both2'] = [CG(f'lie[{nm(a)}]disc[{nm(h)}]', [h], [a]) for a in core for h in (hs if tier == 'quick' else H)]
    out['lie22'] = [CG(f'lie[{nm(a)};{nm(b)}]', lie=[a, b]) for a, b in itertools.combinations(core if tier == 'quick' else A[::3], 2)]
    ps = [ref.permmat(p) for p in itertools.permutations(range(3))]
    pn = {m.tobytes(): ''.join(map(str, m.argmax(1))) for m in ps}
    out['perm3'] = [CG('perm3 ' + pn[a.tobytes()], [a]) for a in ps] + [CG(f'perm3 {pn[a.tobytes()]} {pn[b.tobytes()]}', [a, b]) for a, b in itertools.combinations(ps, 2)]
    p4 = list(itertools.permutations(range(4)))
    q4 = [(a, b) for a, b in itertools.combinations(p4, 2)] if tier != 'quick' else [(p4[7], p4[i]) for i in range(0, 24, 5)]
    out['perm4'] = [CG(f'perm4 {"".join(map(str, a))} {"".join(map(str, b))}', [ref.permmat(a), ref.permmat(b)]) for a, b in q4]
    i = 1j
    X, Y, Z = np.array([[0, 1], [1, 0]], complex), np.array([[0, -i], [i, 0]]), np.array([[1, 0], [0, -1]], complex)
    E = np.eye(2, dtype=complex)
    cd = {'X': X, 'Y': Y, 'Z': Z, 'iI': i * E, 'iX': i * X, 'S': np.diag([1, i]), 'w': np.diag([np.exp(2 * np.pi * i / 3), 1])}
    out['cplx2'] = [CG(f'cdisc {a}', [cd[a]]) for a in cd if a != 'X' and a != 'Z'] + [CG(f'cdisc {a} {b}', [cd[a], cd[b]]) for a, b in itertools.combinations(cd, 2) if (a, b) != ('X', 'Z')][:: 1 if tier != 'quick' else 3]
    out['cplx2'] += [CG(f'clie i{a}', lie=[i * cd[a]]) for a in 'XYZ'] + [CG('clie iX iZ', lie=[i * X, i * Z]), CG('clie iI X', lie=[i * E, X]), CG('clie iZ cdisc Y', [Y], [i * Z])]
    one = [('1', [[1]]), ('-1', [[-1]]), ('2', [[2]]), ('i', [[i]]), ('w', [[np.exp(2 * np.pi * i / 5)]])]
    out['dim1'] = [CG(f'one disc {n}', [np.array(m, dtype=complex if np.iscomplexobj(np.array(m)) else float)]) for n, m in one]
    out['dim1'] += [CG(f'one lie {n}', lie=[np.array(m, dtype=complex if np.iscomplexobj(np.array(m)) else float)]) for n, m in one[:1] + one[3:4]] + [CG('one lie 0', lie=[np.zeros((1, 1))])]
    e3 = [ref._E(3, a, b) for a in range(3) for b in range(3)]
    l3 = e3 + [e3[1] - e3[3], e3[1] + e3[3], e3[2] - e3[6], e3[0] + e3[4] - 2 * e3[8], e3[1] + e3[5]]
    out['lie3'] = [CG(f'lie3 {k}', lie=[a]) for k, a in enumerate(l3)]
    out['lie3'] += [CG(f'lie3 {a} {b}', lie=[l3[a], l3[b]]) for a, b in itertools.combinations(range(len(l3)), 2)][:: 1 if tier != 'quick' else 9]
    return out


def plan(tier):
    out = []
    fam = families(tier)
    per = 30 if tier == 'quick' else 60
    for f, gs in fam.items():
        for i in range(0, len(gs), per): out.append(('groups', dict(family=f, lo=i, hi=min(i + per, len(gs)), tier=tier)))
    out += [('forms', dict(family=f, tier=tier)) for f in fam]
    out += [('layers', dict(part=i, parts=3, tier=tier)) for i in range(3)]
    out.append(('documented', dict(tier=tier)))
    names = sorted(functions())
    out += [('reps', dict(names=names[i::6], tier=tier)) for i in range(6)]
    out += [('replayers', dict(names=names[i::3], tier=tier)) for i in range(3)]
    out.append(('subreps', dict(tier=tier)))
    out.append(('named_alike', dict(tier=tier)))
    out.sort(key=lambda t: t[0] not in ('reps', 'layers', 'replayers', 'documented'))
    return out


# ------------------------------------------------------------------ judging one expression
def judge(ctx, s, rep, e, g, mats=None, what=''):
    """size, rho, drho, basis, projector of a representation against the reference.
    mats: (list of discrete tuples, list of Lie tuples, generic tuple) when the expression has several atoms"""
    if mats is None:
        mats = ([[h] for h in g.disc], [[A] for A in g.lie], [g.elems(2)[1]])
    disc, lie, gen = mats
    t = ref.desugar(e)
    n = ref.size(e, [m.shape[0] for m in gen])
    s.step()
    ctx.state(s.name, ref.show(e), what)
    tag = f'{what}{ref.show(e)}'
    if not s.check(rep.size() == n, f'{tag}: size {rep.size()} instead of {n}'): return
    rows = [ref.drho(e, As) for As in lie] + [ref.rho(e, hs) - np.eye(n) for hs in disc]
    C = np.concatenate(rows, 0) if rows else np.zeros((1, n))
    B = ref.nullspace(C)
    Q = lib.dense(rep.equivariant_basis())
    if not s.check(Q.ndim == 2 and Q.shape == (n, B.shape[1]), f'{tag}: basis of shape {Q.shape} for invariants of dimension {B.shape[1]} in {n}'): return
    s.close(Q.conj().T @ Q, np.eye(Q.shape[1]), f'{tag}: basis not orthonormal')
    s.close(B @ (B.conj().T @ Q), Q, f'{tag}: basis is not the space of invariants')
    s.close(lib.dense(rep.equivariant_projector()), B @ B.conj().T, f'{tag}: projector')
    ctx.outcome(tag, n, B.shape[1])
    return B


def judge_rho(s, rep, e, gen, elem, what=''):
    s.close(lib.dense(rep.rho_dense(elem)), ref.rho(e, gen), f'{what}{ref.show(e)}: matrix of an element')


def judge_group(s, G, g):
    """flags and samples"""
    if not g.complex:
        s.check(bool(G.is_orthogonal) == bool(g.orthogonal()), f'is_orthogonal={G.is_orthogonal}')
        s.check(bool(G.is_permutation) == bool(g.permutation()), f'is_permutation={G.is_permutation}')
    s.check(G.d == g.d, f'dimension {G.d}')
    x = np.asarray(G.samples(2))
    if s.check(x.shape == (2, g.d, g.d), f'samples have shape {x.shape}'): judge_samples(s, G, g)


def judge_samples(s, G, g):
    """samples for all small powers and products of the generators: each fixes every invariant of the group, and for a single
    discrete generator is one of its powers"""
    from mc.checks import c11_samples as c11
    D, M = len(g.lie), len(g.disc)
    K = c11.kgrid(M, 'quick', 130) if M > 1 else np.array([[[a, b, c]] for a in (-3, -1, 0, 2) for b in (-2, 0, 1) for c in (-1, 0, 3)]) if M else np.zeros((1, 0, 3), int)
    Z = c11.zgrid(D) * .5
    N = max(len(K), len(Z))
    S = c11.Draws(Z[np.arange(N) % len(Z)], K[np.arange(N) % len(K)], 0).sample(G, N).astype(complex)
    if not s.check(S.shape == (N, g.d, g.d) and np.isfinite(S).all(), f'samples of shape {S.shape}, finite: {np.isfinite(S).all()}'): return
    sc = np.abs(S).max((1, 2))
    ok = sc < 1e4       # entries of higher powers exceed single precision
    if M == 1 and not D:
        h = np.asarray(g.disc[0], complex)
        P = np.array([np.linalg.matrix_power(h if k >= 0 else np.linalg.inv(h), abs(k)) for k in range(-15, 16)])
        err = np.abs(S[:, None] - P[None]).max((2, 3)).min(1)
        bad = ok & (err > 5e-3 * np.maximum(1, sc))
        s.check(not bad.any(), f'{int(bad.sum())} samples are no powers of the generator', got=S[bad][:1])
    I = np.linalg.inv(S[ok]).transpose(0, 2, 1)
    X, sx, si = S[ok], sc[ok], np.abs(I).max((1, 2))
    for p, q in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2)):
        C, B = ref.invariants(('tpq', p, q), [g])
        if not B.shape[1]: continue
        a, b = (X if p else I), (I if q else X)
        W = a @ B if p + q == 1 else np.einsum('nij,nkl->nikjl', a, b).reshape(len(a), g.d**2, g.d**2) @ B
        err = np.abs(W - B).max((1, 2)) / np.maximum(1, sx**p * si**q)
        s.check(not len(err) or err.max() < 2e-3, f'a sample moves an invariant of T({p},{q})')


def groups(ctx, family, lo, hi, tier):
    gs = families(tier)[family][lo:hi]
    forms = ['dense', 'doc', 'list', 'lazify', 'jnp', 'docperm', 'int', 'matvec', 'perm']
    for k, g in enumerate(gs):
        used = ['dense'] + ([forms[1 + (lo + k) % (len(forms) - 1)]] if tier == 'quick' else forms[1 + (k % 2)::2])
        for form in used:
            with ctx.scenario(f'{family}: {g.name} given as {form}') as s:
                if not s: continue
                G = g.make(form)
                if G is None: continue
                judge_group(s, G, g)
                es = [e for e in (ESMALL if tier == 'quick' else EMORE) if ref.size(e, [g.d]) <= 27]
                for e in es:
                    judge(ctx, s, lib.build(e, G), e, g)
                    if form != 'dense' and s.failed: break
                el = g.elems(2)[1]
                for e in es[1:5]: judge_rho(s, lib.build(e, G), e, [el], lib.jn(el))
                if len(g.lie):
                    A = g.lie[0]
                    for e in es[1:5]: s.close(lib.dense(lib.build(e, G).drho_dense(lib.jn(A))), ref.drho(e, [A]), f'{ref.show(e)}: derivative')
    ctx.sample(dict(family=family, groups=[g.name for g in gs[:3]]))


def forms(ctx, family, tier):
    """every form of the generators, the operators given to rho/drho themselves, dense against lazy"""
    gs = families(tier)[family]
    pick = gs[:: max(1, len(gs) // (2 if tier == 'quick' else 6))]
    for g in pick:
        for form in FORMS:
            with ctx.scenario(f'form {family}: {g.name} as {form}') as s:
                if not s: continue
                G = g.make(form)
                if G is None: continue
                judge_group(s, G, g)
                es = [e for e in (ESMALL if tier == 'quick' else EMORE) if ref.size(e, [g.d]) <= 27]
                for e in es:
                    rep = lib.build(e, G)
                    judge(ctx, s, rep, e, g)
                    for h, hr in list(zip(G.discrete_generators, g.disc))[:1]: judge_rho(s, rep, e, [hr], h, 'generator ')
                    for A, Ar in list(zip(G.lie_algebra, g.lie))[:1]: s.close(lib.dense(rep.drho_dense(A)), ref.drho(e, [Ar]), f'{ref.show(e)}: derivative at the generator')
                    if s.failed: break


def layers(ctx, part, parts, tier):
    """linear layers for user groups, decided on every unit parameter"""
    fam = families(tier)
    jobs = []
    for f in ('both2', 'disc2', 'perm3', 'lie22', 'lie3', 'lie2'):
        gs = [g for g in fam[f] if not g.complex]
        for k, g in enumerate(gs[:: max(1, len(gs) // (2 if tier == 'quick' else 5))]):
            for form in ('dense', 'doc') if tier == 'quick' else ('dense', 'doc', 'list', 'int', 'perm'):
                for ei, eo in ((('+', V, S), V), (V, ('*', V, V)), (T1, ('+', V, S))):
                    jobs.append((f, g, form, ei, eo))
    for f, g, form, ei, eo in jobs[part::parts]:
        ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
        if ni * no > 40: continue
        with ctx.scenario(f'Linear {g.name} as {form}: {ref.show(ei)} -> {ref.show(eo)}') as s:
            if not s: continue
            G = g.make(form)
            if G is None: continue
            c14_linear.one(ctx, s, 'objax', [g], [G], ei, eo, ni, no)
    nets_ = [(f, g) for f in ('both2', 'perm3', 'disc2') for g in [x for x in fam[f] if not x.complex][3:: 20 if tier == 'quick' else 6]]
    from mc.checks import c17_emlp
    for f, g in nets_[part::parts]:
        for fw in ('objax', 'torch') if tier != 'quick' else ('objax',):
            for form in ('dense', 'doc'):
                with ctx.scenario(f'{fw} EMLP {g.name} as {form}') as s:
                    if not s: continue
                    G = g.make(form)
                    import emlp.reps as ER
                    ei, eo = ('+', V, S), ('+', S, T1)
                    ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
                    rin, rout = ref.build(ei, [ER.V]), ref.build(eo, [ER.V])
                    net = nets.Net(fw, lambda m: m.EMLP(rin, rout, G, ch=2 * ER.V + ER.V * ER.V.T + 2 * ER.Scalar, num_layers=1), ni)
                    ctx.state(s.name)
                    c17_emlp.check_net(ctx, s, net, [g], ei, eo, ni, no)


# ------------------------------------------------------------------ the groups of the documentation
def doc_groups():
    from emlp.groups import Group
    Full, MatvecOnly, Inited, LazyPerm = operators()

    class Alt(Group):
        """ The alternating group in n dimensions"""
        def __init__(self, n):
            assert n > 2
            self.discrete_generators = np.zeros((n - 2, n, n)) + np.eye(n)
            for i in range(n - 2):
                ids = (0, 1, i + 2)
                permed_ids = np.roll(ids, 1)
                self.discrete_generators[i, ids] = self.discrete_generators[i, permed_ids]
            super().__init__(n)

    class AltFast(Group):
        def __init__(self, n):
            assert n > 2
            perms = np.zeros((n - 2, n)).astype(int) + np.arange(n)[None]
            for i in range(n - 2):
                ids = (0, 1, i + 2)
                permed_ids = np.roll(ids, 1)
                perms[i, ids] = perms[i, permed_ids]
            self.discrete_generators = [LazyPerm(perm) for perm in perms]
            super().__init__(n)

    class SO(Group):
        def __init__(self, n):
            self.lie_algebra = np.zeros(((n * (n - 1)) // 2, n, n))
            k = 0
            for i in range(n):
                for j in range(i):
                    self.lie_algebra[k, i, j] = 1
                    self.lie_algebra[k, j, i] = -1
                    k += 1
            super().__init__(n)

    class O(SO):
        def __init__(self, n):
            self.discrete_generators = np.eye(n)[None]
            self.discrete_generators[0, 0, 0] = -1
            super().__init__(n)
    return Alt, AltFast, SO, O


def documented(ctx, tier):
    Alt, AltFast, SO, O = doc_groups()
    alt = lambda n: CG(f'A{n}', [ref.permmat([i + 2 if k == 0 else 0 if k == 1 else 1 if k == i + 2 else k for k in range(n)]) for i in range(n - 2)])
    so = lambda n: CG(f'SO{n}', lie=list(ref.so_alg(n)))
    o = lambda n: CG(f'O{n}', [np.diag([-1.] + [1.] * (n - 1))], list(ref.so_alg(n)))
    cases = [(Alt, alt, (3, 4, 5)), (AltFast, alt, (3, 4, 5)), (SO, so, (2, 3, 4)), (O, o, (2, 3, 4))]
    for cls, mk, ns in cases:
        for n in ns if tier == 'quick' else ns + (ns[-1] + 1,):
            with ctx.scenario(f'documented {cls.__name__}({n})') as s:
                if not s: continue
                g = mk(n)
                G = cls(n)
                judge_group(s, G, g)
                cap = 130 if tier == 'quick' else 700
                for e in EMORE + [('tpq', 4, 0), ('tpq', 5, 0), ('+', ('**', V, 2), ('n*', 3, S))]:
                    if ref.size(e, [n]) > cap: continue
                    judge(ctx, s, lib.build(e, G), e, g)
                el = g.elems(2)[1]
                for e in ESMALL: judge_rho(s, lib.build(e, G), e, [el], lib.jn(el))
    # built-in and user groups in one expression
    from emlp.groups import S as Sn, SO as SOn
    for name, A, B, ga, gb in (('Alt(3),SO(2)', Alt(3), SOn(2), alt(3), ref.group('SO(2)')), ('S(3),O(2)', Sn(3), O(2), ref.group('S(3)'), o(2)),
                               ('AltFast(3),Alt(3)', AltFast(3), Alt(3), alt(3), alt(3)), ('mine,mine', group_class()(np.array([[[0, 1.], [1, 0]]]), None), group_class()(np.array([[[1., 1], [0, 1]]]), None),
                               CG('swap', [np.array([[0, 1.], [1, 0]])]), CG('shear', [np.array([[1., 1], [0, 1]])]))):
        for e in (('*', V, R), ('*', R, V), ('+', V, R), ('+', R, V), ('*', ('+', R, V), ('+', V, S)), ('>>', V, R), ('*', ('T', R), ('*', V, R)), ('+', ('*', V, R), ('*', R, V)), ('*', ('*', V, R), V)):
            with ctx.scenario(f'documented mixed {name}: {ref.show(e)}') as s:
                if not s: continue
                rep = lib.build(e, A, B)
                ea, eb = np.eye(ga.d), np.eye(gb.d)
                disc = [[h, eb] for h in ga.disc] + [[ea, h] for h in gb.disc]
                lie = [[x, 0 * eb] for x in ga.lie] + [[0 * ea, x] for x in gb.lie]
                gen = [ga.elems(2)[1], gb.elems(2)[1]]
                judge(ctx, s, rep, e, None, (disc, lie, gen))
                judge_rho(s, rep, e, gen, {A: lib.jn(gen[0]), B: lib.jn(gen[1])})


def named_alike(ctx, tier):
    """groups of one class without (or with abbreviated) arguments do not share results, in either order of use"""
    from emlp.groups import Group

    class Big(Group):
        def __init__(self, perm):
            self.discrete_generators = [operators()[3](perm)]
            super().__init__(perm)

    class Sub(group_class()):
        pass
    mats = [np.array(m, float) for m in ([[0, 1], [1, 0]], [[1, 0], [0, -1]], [[1, 1], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[1, 0], [0, 1]])]
    # every ordered pair, with cold caches
    for (i, a), (j, b) in itertools.permutations(enumerate(mats), 2):
        with ctx.scenario(f'alike {i} then {j}') as s:
            if not s: continue
            seams.clear_caches()
            ga, gb = CG(f'{i}', [a]), CG(f'{j}', [b])
            A, B = ga.make('dense' if i % 2 else 'doc'), gb.make('dense' if j % 2 else 'doc')
            s.check(A != B and not (A == B), 'different groups are equal')
            s.check(A == ga.make('dense' if i % 2 else 'doc'), 'equal groups differ')
            for e in (V, ('*', V, T1)):
                judge(ctx, s, lib.build(e, A), e, ga, what='first ')
                judge(ctx, s, lib.build(e, B), e, gb, what='second ')
                judge(ctx, s, lib.build(e, A), e, ga, what='again ')
            # both in one mixed representation
            for e, x, y, gx, gy in ((('*', V, R), A, B, ga, gb), (('*', V, R), B, A, gb, ga), (('+', R, V), A, B, ga, gb)):
                E = np.eye(2)
                judge(ctx, s, lib.build(e, x, y), e, None, ([[h, E] for h in gx.disc] + [[E, h] for h in gy.disc], [], [gx.elems(2)[1], gy.elems(2)[1]]), 'mixed ')
    # many arguments: the printed form of a long array is abbreviated
    n = 1003 if tier == 'quick' else 1201
    import emlp.reps as ER
    p = np.arange(n)
    perms = []
    for k in (500, 501, 400):
        q = p.copy(); q[[k, k + 1]] = q[[k + 1, k]]; perms.append(q)
    with ctx.scenario(f'alike permutations of {n} points') as s:
        if s:
            Gs = [Big(q) for q in perms]
            for i, A in enumerate(Gs):
                for j, B in enumerate(Gs): s.check((A == B) == (i == j), f'groups {i} and {j} compare {A == B}')
                s.check(ER.V(A) == ER.V(A) and (i == 0 or ER.V(Gs[0]) != ER.V(A)), 'representations compare wrong')
                s.step()
                ctx.state('big', i)


# ------------------------------------------------------------------ user representations
def functions():
    """name -> (matrix function usable with numpy or jax.numpy, applicable to group)"""
    import math
    F = {k: (customs._F[k], lambda g: True) for k in customs._F}
    real = lambda g: not g.complex
    F['Pseudo'] = (lambda xp, M: xp.linalg.slogdet(M)[0] * xp.eye(1), real)

    def power(n):
        def f(xp, M):
            out = M
            for _ in range(n - 1): out = out @ M
            return out
        return f
    abelian = lambda g: all(np.abs(a @ b - b @ a).max() < 1e-9 for a in list(g.lie) + list(g.disc) for b in list(g.lie) + list(g.disc))
    for n in (2, 3): F[f'Power{n}'] = (power(n), abelian)

    def wedge(xp, M):
        d = M.shape[0]
        I = [(i, j) for i in range(d) for j in range(i)]
        r, c = np.array([a for a, _ in I]), np.array([b for _, b in I])
        return M[r][:, r] * M[c][:, c] - M[r][:, c] * M[c][:, r]
    F['Wedge2'] = (wedge, lambda g: g.d > 1)

    def pairs(xp, M):
        d = M.shape[0]
        I = [(i, j) for i in range(d) for j in range(i)]
        r, c = np.array([a for a, _ in I]), np.array([b for _, b in I])
        return M[r][:, r] * M[c][:, c] + M[r][:, c] * M[c][:, r]
    F['Pairs'] = (pairs, lambda g: g.permutation() and g.d > 1)
    F['LogDet'] = (lambda xp, M: xp.array([[1., 0.], [0., 1.]]) + xp.array([[0., 1.], [0., 0.]]) * xp.linalg.slogdet(M)[1], real)
    F['Two'] = (lambda xp, M: xp.eye(2), lambda g: True)
    F['Adjoint'] = (lambda xp, M: xp.kron(M, xp.linalg.inv(M).T), lambda g: True)
    F['InvT'] = (lambda xp, M: xp.linalg.inv(M).T, lambda g: True)
    return F


def custom_rep(name, fn, is_permutation=None, callable_=True):
    import jax.numpy as jnp
    from emlp.reps import Rep

    class Mine(Rep):
        def __init__(self, G=None):
            self.G = G
            if is_permutation is not None: self.is_permutation = is_permutation

        def __str__(self): return name

        def rho(self, M): return fn(jnp, M @ jnp.eye(M.shape[0]))
        if callable_:
            def __call__(self, G): return type(self)(G)
    Mine.__name__ = name
    return Mine


def tangent(fn, A, d):
    e = 1e-5
    return (fn(np, expm(e * A)) - fn(np, expm(-e * A))) / (2 * e)


RGROUPS = ['SL(2)', 'S(3)', 'O(2)', 'SO(2)', 'Scaling(2)', 'Z(3)', 'SO11p()', 'C(4)', 'GL(2)', 'SO(3)', 'U(2)', 'S(2)', 'Sp(1)', 'DkeR3(3)', 'O(1)']
EREPS = [R, ('T', R), ('+', R, V), ('*', R, V), ('*', V, R), ('>>', R, V), ('>>', V, R), ('*', R, R), ('+', ('n*', 2, R), T1), ('*', ('+', R, S), ('+', V, R)), ('**', R, 2), ('>>', R, R),
         ('*', ('T', R), ('*', V, R)), ('T', ('+', S, R)), ('+', ('*', R, V), ('*', V, R)), ('<<', ('+', V, R), V)]


def rep_cases(tier, names):
    F = functions()
    gs = [ref.group(n) for n in (RGROUPS[:8] if tier == 'quick' else RGROUPS) if n in ref.table()]
    gs += [CG('shear', [np.array([[1., 1], [0, 1]])]), CG('swap+hyp', [np.array([[0., 1], [1, 0]])], [np.array([[0., 1], [1, 0]])])]
    for name in names:
        fn, ok = F[name]
        for g in gs:
            if ok(g): yield name, fn, g


def atoms_of(fn, g):
    conv = (lambda m: np.asarray(m, complex)) if g.complex else (lambda m: np.asarray(m, float))
    disc = [[conv(h), fn(np, conv(h))] for h in g.disc]
    lie = [[conv(A), tangent(fn, conv(A), g.d)] for A in g.lie]
    gen = g.elems(2)[1]
    return disc, lie, [gen, fn(np, gen)]


def reps(ctx, names, tier):
    import emlp.reps as ER
    for name, fn, g in rep_cases(tier, names):
        if name == 'LogDet' and g.name == 'SL(2)': pass
        mats = atoms_of(fn, g)
        cls = custom_rep(name, fn, True if name == 'Pairs' else None)
        cap = 20 if tier == 'quick' else 48
        for mode in ('instantiated', 'deferred'):
            with ctx.scenario(f'rep {name} of {g.name} {mode}') as s:
                if not s: continue
                G = g.make('doc') if isinstance(g, CG) else g.make()
                for e in EREPS if mode == 'instantiated' or tier != 'quick' else EREPS[2:13:3]:
                    if ref.size(e, [m.shape[0] for m in mats[2]]) > cap: continue
                    try:
                        if mode == 'instantiated': rep = ref.build(e, [ER.V(G), cls(G)])
                        else: rep = ref.build(e, [ER.V, cls()])(G)
                    except NotImplementedError:
                        if mode == 'deferred' and e[0] == 'T': continue
                        raise
                    judge(ctx, s, rep, e, g, mats)
                    judge_rho(s, rep, e, mats[2], lib.jn(mats[2][0]))
                    for A, As in list(zip(g.lie, mats[1]))[:1]:
                        s.close(lib.dense(rep.drho_dense(lib.jn(A))), ref.drho(e, As), f'{ref.show(e)}: derivative')
                    if s.failed: break
        with ctx.scenario(f'rep {name} of {g.name} identity') as s:
            if not s: continue
            G = g.make()
            a, b = cls(G), cls(G)
            other = custom_rep(name + 'x', fn)(G)
            s.check(a == b and hash(a) == hash(b), 'two copies of a representation differ')
            s.check(not (a == other) and a != ER.V(G), 'different representations are equal')
            s.check(a.size() == mats[2][1].shape[0], f'size {a.size()}')
            s.check(name in str(a + ER.V(G)) or str(a) in str(a + ER.V(G)), f'the name does not appear in {a + ER.V(G)}')


def replayers(ctx, names, tier):
    """linear layers and networks between user representations"""
    import emlp.reps as ER
    from mc.checks.c17_emlp import scaled
    for k, (name, fn, g) in enumerate(rep_cases(tier, names)):
        if g.complex: continue
        if tier == 'quick' and k % 2: continue
        disc, lie, gen = atoms_of(fn, g)
        cls = custom_rep(name, fn, True if name == 'Pairs' else None)
        hs = [[h, fn(np, h)] for h in g.gens()] + [gen]
        nr = gen[1].shape[0]
        for ei, eo in ((('+', R, S), ('+', V, R)), (V, R), (R, ('*', V, R))):
            ni, no = (ref.size(x, [g.d, nr]) for x in (ei, eo))
            if ni * no > (48 if tier == 'quick' else 150): continue
            with ctx.scenario(f'rep {name} of {g.name} Linear {ref.show(ei)} -> {ref.show(eo)}') as s:
                if not s: continue
                G = g.make('doc') if isinstance(g, CG) else g.make()
                at = [ER.V(G), cls(G)]
                net = nets.Net('objax', lambda m: m.Linear(ref.build(ei, at), ref.build(eo, at)), ni)
                rows = lib.f32(lib.probe(4, ni, t=1))
                W, b, _ = c14_linear.probe(net, ni, no, net.generic(1), rows)
                s.step(len(W)); ctx.state(s.name)
                e = ('*', eo, ('T', ei))

                def inv(e):
                    n = ref.size(e, [g.d, nr])
                    C = [ref.drho(e, A) for A in lie] + [ref.rho(e, h) - np.eye(n) for h in disc] or [np.zeros((1, n))]
                    return ref.nullspace(np.concatenate(C, 0))
                NW, Nb = inv(e), inv(eo)
                Wv = W.reshape(len(W), -1)
                s.close((NW @ (NW.T @ Wv.T)).T, Wv, 'a reachable weight is not equivariant')
                s.close((Nb @ (Nb.T @ b.T)).T, b, 'a reachable bias is not invariant')
                s.check(c14_linear.rank(Wv) == NW.shape[1], f'reachable weights span {c14_linear.rank(Wv)} dimensions of {NW.shape[1]}')
                s.check(c14_linear.rank(b) == Nb.shape[1], f'reachable biases span {c14_linear.rank(b)} dimensions of {Nb.shape[1]}')
        if tier == 'quick' and k % 4: continue
        for fw in ('objax',) if tier == 'quick' else ('objax', 'torch'):
            with ctx.scenario(f'rep {name} of {g.name} {fw} EMLP') as s:
                if not s: continue
                G = g.make('doc') if isinstance(g, CG) else g.make()
                v, r = ER.V, cls()
                ei, eo = ('+', R, V), ('+', V, R)
                ni, no = (ref.size(x, [g.d, nr]) for x in (ei, eo))
                net = nets.Net(fw, lambda m: m.EMLP(r + v, v + r, G, ch=2 * r + v + 2 * ER.Scalar, num_layers=1), ni)
                X = lib.probe(3, ni, t=1)
                rows = np.concatenate([X] + [X @ ref.rho(ei, h).T for h in hs]).astype(np.float32)
                ctx.state(s.name)
                for t in (0, 1):
                    y = net.apply(scaled(net, t, 1.), rows)
                    s.check(y.shape == (len(rows), no) and np.isfinite(y).all(), f'output of shape {y.shape}')
                    for i, h in enumerate(hs):
                        s.step()
                        s.close(y[3 + 3 * i:6 + 3 * i], y[:3] @ ref.rho(eo, h).T, 'network with a user representation is not equivariant', 5e-3)


def subreps(ctx, tier):
    """representations of one factor of a product group that read the factors of the Kronecker product"""
    import emlp.reps as ER
    from emlp.reps.linear_operators import LazyKron
    from mc.checks.c17_emlp import scaled

    class ProductSubRep(ER.Rep):
        def __init__(self, G, subgroup_id, size):
            self.G, self.index, self._size = G, subgroup_id, size

        def __str__(self): return "V_" + str(self.G).split('x')[self.index]

        def size(self): return self._size

        def rho(self, M): return M.Ms[self.index]

        def drho(self, A): return A.Ms[self.index]

        def __call__(self, G):
            assert self.G == G
            return self
    A, B = ('V', 0), ('V', 1)
    VG = ('*', A, B)
    names = [('SO(3)', 'S(3)'), ('S(2)', 'SO(2)'), ('SL(2)', 'Z(3)'), ('O(2)', 'S(3)'), ('SO11p()', 'O(2)')]
    for n1, n2 in names[:3] if tier == 'quick' else names:
        g1, g2 = ref.group(n1), ref.group(n2)
        E1, E2 = np.eye(g1.d), np.eye(g2.d)
        disc = [[h, E2] for h in g1.disc] + [[E1, h] for h in g2.disc]
        lie = [[x, 0 * E2] for x in g1.lie] + [[0 * E1, x] for x in g2.lie]
        gens = [[h, E2] for h in g1.gens()] + [[E1, h] for h in g2.gens()] + [[g1.elems(2)[1], g2.elems(2)[1]]]
        for e in (A, B, ('+', B, VG), ('+', A, B), ('*', A, B), ('*', A, A), ('>>', ('+', B, VG), A), ('>>', B, B), ('*', ('+', A, S), ('+', B, A)), ('*', VG, A), ('>>', VG, B)):
            if ref.size(e, [g1.d, g2.d]) > (48 if tier == 'quick' else 120): continue
            with ctx.scenario(f'factor representations {n1} x {n2}: {ref.show(e)}') as s:
                if not s: continue
                G1, G2 = g1.make(), g2.make()
                G = G1 * G2
                at = [ProductSubRep(G, 0, G1.d), ProductSubRep(G, 1, G2.d)]

                def build(e):      # V(G) stands for the product A*B where it is written as VG
                    if e is VG: return ER.V(G)
                    if e[0] == 'V': return at[e[1]]
                    if e == S: return ER.Scalar
                    x, y = build(e[1]), build(e[2])
                    return x + y if e[0] == '+' else x * y if e[0] == '*' else x >> y
                rep = build(e)
                gen = gens[-1]
                judge(ctx, s, rep, e, None, (disc, lie, gen))
                s.close(lib.dense(rep.rho_dense(LazyKron([lib.jn(gen[0]), lib.jn(gen[1])]))), ref.rho(e, gen), 'matrix of an element')
        with ctx.scenario(f'factor representations {n1} x {n2}: network') as s:
            if not s: continue
            G1, G2 = g1.make(), g2.make()
            G = G1 * G2
            a, b = ProductSubRep(G, 0, G1.d), ProductSubRep(G, 1, G2.d)
            ei, eo = ('+', B, VG), A
            ni, no = ref.size(ei, [g1.d, g2.d]), g1.d
            net = nets.Net('objax', lambda m: m.EMLP(b + ER.V(G), a, G, ch=16, num_layers=1), ni)
            X = lib.probe(2, ni, t=1)
            rows = np.concatenate([X] + [X @ ref.rho(ei, h).T for h in gens]).astype(np.float32)
            y = net.apply(scaled(net, 0, 1.), rows)
            ctx.state(s.name)
            s.check(y.shape == (len(rows), no), f'output of shape {y.shape}')
            for i, h in enumerate(gens):
                s.step()
                s.close(y[2 + 2 * i:4 + 2 * i], y[:2] @ ref.rho(eo, h).T, 'network is not equivariant', 5e-3)
