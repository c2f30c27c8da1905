"""C08: results never depend on what was computed before."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('Operation histories over alphabets of mutually confusable problems (same dimension, same spelling in another order, same shape in '
        'another group, shared deferred expressions, Scalar/V instantiated with groups, gated/uniform channel helpers): every sequence up to the '
        'stated length is executed from a cleared process state for several hash orders; after every operation the result, and at the end '
        'of the history every object created by it and the shared singletons, are compared with the history-free reference model.')
ASSUMPTIONS = ['a fresh process is represented by clearing the memo tables; the reference answers do not depend on that']

v, t, o = ('V', 0), ('T', ('V', 0)), ('1',)
w = ('V', 1)


def P(a, b): return ('*', a, b)
def S(a, b): return ('+', a, b)


ALPHA = {
    # the same expression in different groups of the same dimension
    'groups2': [('solve', (g,), P(v, v)) for g in ('SL(2)', 'S(2)', 'SO(2)', 'O(2)', 'C(3)', 'D(3)', 'Scaling(2)', 'Z(2)', 'SO11p()', 'U(2)', 'Trivial(2)', 'C(4)', 'C(2)')]
               + [('solve', ('SL(2)',), P(v, t)), ('solve', ('S(2)',), v), ('solve', ('Trivial(2)',), S(v, o))],
    'groups3': [('solve', (g,), P(v, t)) for g in ('Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)', 'SO2eR3()', 'O2eR3()', 'DkeR3(3)', 'DkeR3(4)', 'S(3)', 'Z(3)', 'SO(3)', 'SL(3)', 'O(3)', 'Embed(SL(2),3,1:3)', 'Embed(C(4),3,1:3)', 'Embed(SO11p(),3,0:2)', 'Embed(SO11p(),3,1:3)')]
               + [('solve', (g,), v) for g in ('Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)', 'Embed(SL(2),3,1:3)', 'S(3)', 'Z(3)')],
    'groups6': [('solve', (g,), P(v, v)) for g in ('Z(2)xZ(3)', 'S(2)xS(3)', 'Cube()', 'S(6)', 'Z(6)', 'Sp(3)')] + [('solve', (g,), v) for g in ('Z(2)xZ(3)', 'S(2)xS(3)', 'Cube()', 'S(6)')],
    'groups4': [('solve', (g,), P(v, v)) for g in ('SO13p()', 'SO13()', 'Lorentz()', 'O13()', 'Parity()', 'TimeReversal()', 'Sp(2)', 'SO(4)', 'SL(2)xZ(2)', 'SO(2)xSO11p()', 'Embed(SO(2),4,1:3)', 'Embed(SO(2),4,2:4)', 'O(2)xSO(2)')],
    # different spellings/orders in one group
    'order': [('solve', ('SL(2)',), e) for e in (P(v, t), P(t, v), P(v, v), S(v, t), S(t, v), P(P(v, t), v), P(P(v, v), t), P(t, P(v, v)), S(P(v, t), o), S(o, P(v, t)), S(P(t, v), P(v, t)), P(S(v, o), t), P(t, S(v, o)), P(S(v, o), S(o, v)), ('T', P(v, t)), ('n*', 2, P(t, v)), P(('n*', 2, v), t))],
    'orderS': [('solve', ('S(2)',), e) for e in (v, S(v, o), S(o, v), P(v, S(v, o)), P(S(v, o), v), ('**', v, 3), S(P(v, v), v), S(v, P(v, v)), ('n*', 3, v), P(('n*', 2, v), v), P(v, ('n*', 2, v)), o)],
    # shared deferred expressions instantiated with several groups, singletons, helpers
    'inst': [('inst', (g,), e) for g in ('SL(2)', 'S(2)', 'S(3)') for e in (P(v, t), S(S(v, t), o), ('n*', 2, v))]
            + [('scalar', (g,), o) for g in ('SL(2)', 'S(3)')] + [('solve', ('S(2)',), S(v, o)), ('solve', ('S(3)',), P(S(o, v), v)), ('gated', ('SL(2)',), S(v, o)), ('gated', ('S(3)',), S(v, o)), ('uniform', ('SL(2)',), o), ('uniform', ('S(3)',), o)],
    # products of different groups
    'mixed': [('solve', ('S(2)', 'SL(2)'), e) for e in (P(v, w), P(w, v), P(P(v, w), v), P(P(v, v), w), P(w, ('T', w)), S(v, w), S(w, v), P(S(v, w), v))]
             + [('solve', ('S(2)', 'SO(2)'), e) for e in (P(v, w), P(w, v), P(P(w, v), w))] + [('solve', ('Z(2)', 'SL(2)'), P(v, w)), ('solve', ('S(2)',), P(v, v)), ('solve', ('SL(2)',), P(v, t)), ('solve', ('Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)'), P(v, w)), ('solve', ('Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)'), P(w, v))],
    # groups constructed in every order
    'ctor': [('fresh', (g,), P(v, v)) for g in ('SO(2)', 'O(2)', 'C(4)', 'D(4)', 'D(1)', 'SO11p()', 'O11()', 'S(2)', 'Z(2)', 'GL(2)', 'SL(2)', 'Sp(1)', 'SO2eR3()', 'O2eR3()', 'Z(2)xS(2)', 'SO13p()', 'SO13()', 'Lorentz()', 'O13()') if g in ref.table()],
    'gates': [('gated', (g,), e) for g in ('SL(2)', 'S(2)', 'SO(2)') for e in (S(v, o), S(o, v), P(v, v), S(P(v, v), S(o, v)), ('n*', 2, v))] + [('gated', ('SL(2)',), S(t, v)), ('gated', ('SL(2)',), S(v, t))],
    # user-defined representations of one class in several groups and with several parameters
    'user': [('user', (g,), e, u) for g in ('SO(2)', 'SL(2)', 'S(2)', 'SO(3)', 'S(3)', 'Trivial(3)') for u, e in ((('Sq',), P(v, v)), (('Pow', 3), ('**', v, 3)), (('Pow', 1), v))]
            + [('user', (g,), e, u) for g in ('SL(2)', 'S(2)') for u, e in ((('Conj',), P(v, t)), (('Sq', '+V'), S(P(v, v), v)), (('Pow', 2, '*V'), P(P(v, v), v)), (('Pow', 1, '*V'), P(v, v)))] + [('solve', ('SL(2)',), P(v, v))],
    'user3': [('user', (g,), e, u) for g in ('Trivial(3)', 'SO(3)', 'S(3)', 'O(3)', 'Z(3)', 'SL(3)', 'Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)') for u, e in ((('Sq',), P(v, v)), (('Pow', 1), v))],
    # maps (in >> out), as every linear layer builds them
    'maps': [('solve', (g,), e) for g in ('SL(2)', 'S(2)') for e in (('>>', v, S(v, o)), ('>>', S(v, o), v), ('>>', S(o, v), v), ('<<', v, S(v, o)), ('>>', v, v), ('<<', S(o, v), v), ('>>', P(v, t), v))],
}


def plan(tier):
    out = []
    q = tier == 'quick'
    for name, al in ALPHA.items():
        n = len(al)
        for salt in ((0, 1) if q else (0, 1, 2, 3)):
            k = 2
            for i in range(k): out.append(('hist', dict(alpha=name, length=2, sub=n, salt=salt, chunk=[i, k])))
        for salt in ((0,) if q else (0, 1, 2)):
            m = 5 if q else 10
            k = 1 if q else 6
            for i in range(k): out.append(('hist', dict(alpha=name, length=3, sub=m, salt=salt, chunk=[i, k])))
    for i in range(2 if q else 4): out.append(('walk', dict(salt=i)))
    return out


_user = {}


def user(label, G, order=None):
    """a representation of a user's class (one class per label for the whole process, as in the documentation)"""
    if not _user:
        from emlp.reps import Rep
        import jax.numpy as jnp

        class Base(Rep):
            def __init__(self, G=None): self.G = G

            def __call__(self, G): return type(self)(G)

            def __str__(self): return type(self).__name__

        class Sq(Base):
            def rho(self, M):
                M = M @ jnp.eye(self.G.d)
                return jnp.kron(M, M)

        class Conj(Base):
            def rho(self, M):
                M = M @ jnp.eye(self.G.d)
                return jnp.kron(M, jnp.linalg.inv(M).T)

        class Pow(Base):
            def __init__(self, order, G=None):
                self.order = order
                self.G = G

            def __call__(self, G): return Pow(self.order, G)

            def __str__(self): return 'psi'

            def rho(self, M):
                M = out = M @ jnp.eye(self.G.d)
                for _ in range(self.order - 1): out = jnp.kron(out, M)
                return out
        _user.update(Sq=Sq, Conj=Conj, Pow=Pow)
    return _user[label](order)(G) if order else _user[label]()(G)


def make_user(G, u):
    import emlp.reps as R
    r = user(u[0], G, u[1] if len(u) > 1 and isinstance(u[1], int) else None)
    if u[-1] == '+V': r = r + R.V(G)
    if u[-1] == '*V': r = r * R.V(G)
    return r


class World:
    def __init__(self):
        self.groups, self.deferred = {}, {}

    def G(self, name):
        if name not in self.groups: self.groups[name] = ref.group(name).make()
        return self.groups[name]


def opname(op):
    return f'{op[0]} {"|".join(op[1])}:{ref.show(op[2])}' + (f' as {op[3]}' if len(op) > 3 else '')


_inv = {}


def truth(names, e):
    k = (names, e)
    if k not in _inv:
        gs = [ref.group(x) for x in names]
        C, B = ref.invariants(e, gs)
        h = [g.elems(2)[1] for g in gs]
        _inv[k] = (gs, B, h, ref.rho(e, h))
    return _inv[k]


def verify(s, W, names, e, rep, what, solve=True):
    gs, B, h, R = truth(names, e)
    n = R.shape[0]
    ok = s.check(rep.size() == n, f'{what}: size {rep.size()} instead of {n}')
    if not ok: return False
    arg = lib.jn(h[0]) if len(gs) == 1 else {W.G(x): lib.jn(y) for x, y in zip(names, h)}
    if not s.close(rep.rho_dense(arg), R, f'{what}: action'): return False
    if solve:
        Q = lib.dense(rep.equivariant_basis())
        if not s.check(Q.shape == (n, B.shape[1]), f'{what}: basis shape {Q.shape} instead of {(n, B.shape[1])}'): return False
        if not s.close(Q @ Q.conj().T, B @ B.conj().T, f'{what}: span of the basis'): return False
        x = lib.probe(n, cplx=any(g.complex for g in gs))
        if not s.close(rep.equivariant_projector() @ lib.jn(x), B @ (B.conj().T @ x), f'{what}: projector'): return False
    return True


def do(s, W, op):
    """perform one operation on the real library; returns (rep or None)"""
    import emlp.reps as R
    import emlp.nn as nn
    kind, names, e = op[:3]
    s.step()
    Gs = [W.G(x) for x in names]
    if kind == 'solve':
        rep = lib.build(e, *Gs)
        verify(s, W, names, e, rep, opname(op))
        return (rep, names, e)
    if kind == 'user':
        rep = make_user(Gs[0], op[3])
        verify(s, W, names, e, rep, opname(op))
        return (rep, names, e, op[3])
    if kind == 'fresh':
        W.groups[names[0]] = G = ref.group(names[0]).make()
        g = ref.group(names[0])
        s.check(G.d == g.d and len(G.lie_algebra) == len(g.lie) and len(G.discrete_generators) == len(g.disc), 'generators of a newly built group')
        rep = lib.build(e, G)
        verify(s, W, names, e, rep, opname(op))
        return (rep, names, e)
    if kind == 'inst':
        if e not in W.deferred: W.deferred[e] = ref.build(e, [R.V])
        rep = W.deferred[e](Gs[0])
        verify(s, W, names, e, rep, opname(op))
        return (rep, names, e)
    if kind == 'scalar':
        rep = R.Scalar(Gs[0])
        s.check(rep.size() == 1, 'size of Scalar(G)')
        s.close(rep.rho_dense(lib.jn(ref.group(names[0]).elems(1)[0])), np.eye(1), 'Scalar(G).rho')
        s.close(lib.dense(rep.equivariant_basis()), np.eye(1), 'Scalar(G) basis')
        return (rep, names, e)
    if kind == 'uniform':
        ch = 11
        rep = nn.uniform_rep(ch, Gs[0])
        s.check(rep.size() == ch, f'uniform_rep({ch}) has size {rep.size()}')
        return None
    if kind == 'gated':
        rep = lib.build(e, Gs[0])
        check_gates(s, rep, e, ref.group(names[0]))
        return (rep, names, e)
    raise ValueError(kind)


def check_gates(s, rep, e, g):
    import emlp.nn as nn
    n = ref.size(e, [g.d])
    gid = np.asarray(nn.gate_indices(rep))
    if not s.check(gid.shape == (n,), f'gate indices have shape {gid.shape}'): return
    used = []
    for idx, word in ref.parts(e, [g.d]):
        if len(word) == 0 or g.permutation():
            s.check(np.array_equal(gid[idx], idx), f'scalar/permutation channels {idx} gated by {gid[idx]}')
        else:
            s.check(len(set(gid[idx])) == 1 and gid[idx][0] >= n, f'part {idx} gated by {gid[idx]}')
            used.append(int(gid[idx][0]))
    s.check(sorted(used) == list(range(n, n + len(used))), f'gate scalars used: {sorted(used)}')
    s.check(nn.gated(rep).size() == n + len(used), f'gated size {nn.gated(rep).size()} instead of {n + len(used)}')


def singletons(s, W):
    import emlp.reps as R
    s.check(R.Scalar.size() == 1, 'Scalar.size()')
    s.check(R.Scalar == R.Scalar and R.Scalar != R.V, 'Scalar/V comparison')
    s.check(not R.V.concrete, 'the shared V became concrete')
    s.check(getattr(R.V, 'G', None) is None and getattr(R.Scalar, 'G', None) is None, 'a shared representation object now carries a group')
    s.close(R.Scalar.rho_dense(np.eye(2, dtype=np.float32)), np.eye(1), 'Scalar.rho')


def hist(ctx, alpha, length, sub, salt, chunk):
    al = ALPHA[alpha]
    if sub < len(al):        # keep a spread of the alphabet
        al = [al[i * len(al) // sub] for i in range(sub)]
    seams.set_salt(salt)
    W0 = World()
    for op in al:
        if op[0] != 'fresh':
            for x in op[1]: W0.G(x)
    seqs = list(itertools.product(range(len(al)), repeat=length))
    i, n = chunk
    for seq in seqs[len(seqs) * i // n:len(seqs) * (i + 1) // n]:
        with ctx.scenario(f'{alpha} salt{salt}: ' + ' ; '.join(opname(al[k]) for k in seq)) as s:
            if not s: continue
            seams.clear_caches()
            W = World()
            W.groups = dict(W0.groups) if alpha != 'ctor' else {}
            objs, hashes = [], []
            for k in seq:
                r = do(s, W, al[k])
                if s.failed: break
                if r is not None:
                    objs.append(r); hashes.append(hash(r[0]))
                ctx.state(alpha, salt, tuple(seq[:len(objs)]))
            if s.failed: continue
            ctx.outcome(alpha, seq)
            for j, (rep, names, e, *u) in enumerate(objs):
                s.check(hash(rep) == hashes[j], f'hash of {ref.show(e)} changed during the history')
                verify(s, W, names, e, rep, f'afterwards: {ref.show(e)} in {"|".join(names)}')
                fresh = make_user(W.G(names[0]), u[0]) if u else lib.build(e, *[W.G(x) for x in names])
                s.check(fresh == rep and rep == fresh, f'{ref.show(e)} rebuilt after the history is not equal to the earlier object')
            for (a, na, ea, *_), (b, nb, eb, *_) in itertools.combinations(objs, 2):
                if a == b:
                    ra, rb = truth(na, ea)[3], truth(nb, eb)[3]
                    s.check(hash(a) == hash(b), f'equal objects with different hashes: {ref.show(ea)} / {ref.show(eb)}')
                    if not all(x in ('1',) for x in (ea[0], eb[0])):
                        s.check(ra.shape == rb.shape and truth(na, ea)[1].shape == truth(nb, eb)[1].shape, f'{ref.show(ea)} in {na} equals {ref.show(eb)} in {nb}')
            singletons(s, W)
            ctx.sample({'history': [opname(al[k]) for k in seq]})
    seams.set_salt(0)


def walk(ctx, salt):
    """one long history through every alphabet, twice, without clearing anything"""
    seams.set_salt(salt)
    W = World()
    with ctx.scenario(f'long history salt{salt}') as s:
        if not s: return
        ops = [op for al in ALPHA.values() for op in al]
        if salt % 2: ops = ops[::-1]
        for op in ops + ops[::2] + ops[1::2]:
            do(s, W, op)
            ctx.state('walk', salt, opname(op))
            if s.failed: break
        singletons(s, W)
    seams.set_salt(0)
