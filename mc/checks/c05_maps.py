"""C05: solved maps between representations are exactly the equivariant maps."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('Every ordered pair (in, out) of the enumerated expressions and every triple of nested arrows: each basis column of in>>out '
        'and out<<in, reshaped to (out, in), intertwines the reference representations at all generators, the columns are independent '
        'and their number is the true dimension of the space of equivariant maps; projector applied to a generic vector gives the '
        'nearest equivariant map.')
ASSUMPTIONS = ['intertwining is checked on generators (equivalent for the generated group) and at generic elements']

PAIRS_Q = ['SL(2)', 'S(2)', 'U(2)', 'SO(2)', 'SO11p()', 'Scaling(2)']
PAIRS_T = PAIRS_Q + ['C(3)', 'O(2)', 'O11()', 'GL(2)', 'D(3)', 'SU(2)']


def pairs(fam, d, maxsize):
    es = [e for e in lib.expr_set(fam) if ref.size(e, [d]) <= maxsize]
    ps = [(a, b) for a in es for b in es if ref.size(a, [d]) * ref.size(b, [d]) <= maxsize]
    ps.sort(key=lambda p: (len(str(lib.terms(('>>',) + p))), str(lib.terms(('>>',) + p))))
    return ps


def plan(tier):
    out = []
    def add(fam, groups, maxsize, n, salt=0):
        for i in range(n): out.append(('run', dict(fam=fam, groups=groups, maxsize=maxsize, chunk=[i, n], salt=salt)))
    if tier == 'quick':
        add('d1', PAIRS_Q[:3], 16, 8)
        add('d1', PAIRS_Q[3:], 12, 2)
        add('d1', ['SO(3)', 'SL(3)', 'S(3)'], 18, 4)
        add('d1', ['SL(2)', 'S(2)'], 12, 2, salt=1)
        add('pair0', lib.allgroups(6), 36, 6)
        for g in ('SL(2)', 'S(2)', 'U(2)', 'S(3)', 'SO(2)'): out.append(('nested', dict(group=g, maxsize=27, salts=[0, 1])))
    else:
        add('d1', PAIRS_T[:6], 40, 16)
        add('d1', PAIRS_T[6:], 25, 8)
        add('d1', ['SO(3)', 'SL(3)', 'S(3)', 'SO2eR3()', 'Z(3)'], 40, 8)
        for salt in (1, 2, 3): add('d1', ['SL(2)', 'S(2)'], 20, 4, salt=salt)
        add('pair0', lib.allgroups(8), 130, 4)
        for g in lib.allgroups(3): out.append(('nested', dict(group=g, maxsize=81, salts=[0, 1, 2, 3])))
    return out


def check_maps(ctx, s, rep, e_in, e_out, gs, order='>>', proj=True):
    nin, nout = (ref.size(x, [g.d for g in gs]) for x in (e_in, e_out))
    e = ('>>', e_in, e_out)
    C, B = ref.invariants(e, gs)
    if not s.check(rep.size() == nin * nout, f'size {rep.size()} is not {nout}*{nin}'): return
    Q = lib.dense(rep.equivariant_basis())
    if not s.check(Q.shape == (nin * nout, B.shape[1]), f'basis shape {Q.shape}, the equivariant maps have dimension {B.shape[1]}'): return
    ctx.outcome(nin, nout, B.shape[1])
    if B.shape[1]:
        s.check(np.linalg.matrix_rank(Q, tol=1e-2) == B.shape[1], 'the solutions are linearly dependent')
        W = Q.T.reshape(-1, nout, nin)
        for i, h in enumerate(lib.gen_tuples(gs)):
            ri, ro = ref.rho(e_in, h), ref.rho(e_out, h)
            if not s.close(ro @ W, W @ ri, f'solution does not intertwine generator {i}'): return
    if proj:
        cplx = any(g.complex for g in gs)
        v = lib.probe(nin * nout, cplx=cplx)
        s.close(rep.equivariant_projector() @ lib.jn(v), B @ (B.conj().T @ v), 'projection of a generic matrix')


def run(ctx, fam, groups, maxsize, chunk, salt):
    if salt: seams.set_salt(salt)
    byd = {}
    for g in groups: byd.setdefault(ref.group(g).d, []).append(ref.group(g))
    for d, gs in byd.items():
        made = {g.name: g.make() for g in gs}
        if fam == 'pair0':
            base = [('V', 0), ('T', ('V', 0)), ('1',), ('+', ('V', 0), ('1',)), ('*', ('V', 0), ('T', ('V', 0)))]
            ps = [(a, b) for a in base for b in base if ref.size(a, [d]) * ref.size(b, [d]) <= maxsize]
        else:
            ps = pairs(fam, d, maxsize)
        i, n = chunk
        for a, b in ps[len(ps) * i // n:len(ps) * (i + 1) // n]:
            for g in gs:
                with ctx.scenario(f'{g.name}: {ref.show(a)} >> {ref.show(b)}' + (f' salt{salt}' if salt else '')) as s:
                    if not s: continue
                    G = made[g.name]
                    ra, rb = lib.build(a, G), lib.build(b, G)
                    s.step(2)
                    ctx.state(s.name)
                    check_maps(ctx, s, ra >> rb, a, b, [g])
                    check_maps(ctx, s, rb << ra, a, b, [g], proj=False)
                    ctx.sample({'scenario': s.name})
    if salt: seams.set_salt(0)


def nested(ctx, group, maxsize, salts):
    """R1>>(R2>>R3): one axis per argument, output first, then the arguments from the innermost arrow outwards."""
    g = ref.group(group)
    atoms = [('V', 0), ('T', ('V', 0)), ('1',), ('+', ('V', 0), ('1',)), ('+', ('1',), ('T', ('V', 0))), ('+', ('V', 0), ('V', 0)), ('*', ('V', 0), ('T', ('V', 0)))]
    trip = [t for t in itertools.product(atoms, repeat=3) if np.prod([ref.size(x, [g.d]) for x in t]) <= maxsize]
    trip.sort(key=lambda t: str(lib.terms(('>>', t[0], ('>>', t[1], t[2])))))
    for salt in salts:
        seams.set_salt(salt)
        G = g.make()
        for r1, r2, r3 in trip:
            with ctx.scenario(f'{group}: {ref.show(r1)}>>({ref.show(r2)}>>{ref.show(r3)}) salt{salt}') as s:
                if not s: continue
                n1, n2, n3 = (ref.size(x, [g.d]) for x in (r1, r2, r3))
                L = lambda x: lib.build(x, G)
                reps = {'R1>>(R2>>R3)': L(r1) >> (L(r2) >> L(r3)), '(R3<<R2)<<R1': (L(r3) << L(r2)) << L(r1)}
                s.step(2)
                ctx.state(s.name)
                e = ('>>', r1, ('>>', r2, r3))
                C, B = ref.invariants(e, [g])
                ctx.outcome(n1, n2, n3, B.shape[1])
                for lab, rep in reps.items():
                    Q = lib.dense(rep.equivariant_basis())
                    if not s.check(Q.shape == (n1 * n2 * n3, B.shape[1]), f'{lab}: basis shape {Q.shape}, true dimension {B.shape[1]}'): continue
                    T = Q.T.reshape(-1, n3, n2, n1)
                    for h in lib.gen_tuples([g]):
                        m1, m2, m3 = (ref.rho(x, h) for x in (r1, r2, r3))
                        lhs = np.einsum('rabc,bj,ck->rajk', T, m2, m1)
                        rhs = np.einsum('ia,rabc->ribc', m3, T)
                        if not s.close(lhs, rhs, f'{lab}: multilinear map is not equivariant'): break
    seams.set_salt(0)
