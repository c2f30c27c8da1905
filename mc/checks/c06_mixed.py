"""C06: tensor products across different groups behave as the external product."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('All products/sums/duals up to the stated length over an alphabet of base representations of two or three different groups, for '
        'every hash order (salt): rho on dictionaries of elements, drho, size, basis and projector equal the reference external product.')
ASSUMPTIONS = ['hash orders between groups are explored through the salt of the library-visible hash()']

PAIRS = [('SL(2)', 'S(2)'), ('SO11p()', 'SL(2)'), ('Z(3)', 'SO(2)'), ('SO(3)', 'S(2)'), ('U(2)', 'S(2)'), ('Scaling(2)', 'Z(2)'), ('SL(2)', 'SL(3)'),
         ('O(2)', 'SO(2)'), ('SO(2)xS(2)', 'SL(2)'), ('Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)')]
TRIPLES = [('SL(2)', 'S(2)', 'SO(2)'), ('SO(3)', 'SL(2)', 'Z(2)'), ('S(2)', 'Z(2)', 'O(2)'), ('SL(2)', 'SO11p()', 'U(2)')]


def words(gs, maxlen, maxsize):
    """all words over V_k, V_k* (duals only of non-orthogonal groups) as left-nested products"""
    al = []
    for k, g in enumerate(gs):
        al.append(('V', k))
        if not g.orthogonal(): al.append(('T', ('V', k)))
    out = []
    for L in range(2, maxlen + 1):
        for w in itertools.product(al, repeat=L):
            if len({x[1] if x[0] == 'V' else x[1][1] for x in w}) < 2: continue
            e = w[0]
            for x in w[1:]: e = ('*', e, x)
            out.append(e)
            if L == 4: out.append(('*', ('*', w[0], w[1]), ('*', w[2], w[3])))
            if L == 3: out.append(('*', w[0], ('*', w[1], w[2])))
    return [e for e in out if ref.size(e, [g.d for g in gs]) <= maxsize]


def mixed_exprs(gs, level, maxsize):
    """sums, duals, multiples and arrows over two-letter pieces"""
    ds = [g.d for g in gs]
    A = [('V', k) for k in range(len(gs))]
    pr = [('*', a, b) for a in A for b in A if a != b]
    pieces = A + pr + [('1',), ('T', A[0]), ('*', A[0], ('T', A[0]))]
    out = []
    for a in pieces:
        for b in pieces: out += [('+', a, b), ('>>', a, b), ('<<', a, b)]
    sums = [('+', A[0], A[1]), ('+', A[1], A[0]), ('+', ('1',), A[1]), ('+', pr[0], A[0]), ('+', pr[1], pr[0]), ('n*', 2, A[0]), ('n*', 2, pr[0]), ('n*', 3, pr[1])]
    for a in sums:
        out += [('T', a), ('*n', a, 2), ('+n', a, 1), ('n+', 2, a)]
        for b in A + pr + sums[:4]: out += [('*', a, b), ('*', b, a)]
        if level > 1:
            for b in sums: out += [('>>', a, b), ('+', a, b)]
    for a in pr: out += [('T', a), ('n*', 2, a), ('*n', a, 3), ('**', a, 2), ('+n', a, 2)]
    return [e for e in dict.fromkeys(out) if ref.size(e, ds) <= maxsize]


def plan(tier):
    out = []
    if tier == 'quick':
        for i, p in enumerate(PAIRS):
            salts = [0, 1, 2, 3]
            for c in (0, 1): out.append(('run', dict(groups=p, fam='words', maxlen=3, maxsize=36, salts=salts[2 * c:2 * c + 2])))
            if i < 2: out.append(('run', dict(groups=p, fam='words4', maxlen=4, maxsize=16, salts=[0, 1])))
            out.append(('run', dict(groups=p, fam='mixed', maxlen=1, maxsize=24, salts=[0, 1] if i < 2 else [i % 4])))
        for p in TRIPLES: out.append(('run', dict(groups=p, fam='words', maxlen=3, maxsize=18, salts=[0, 1, 2, 3])))
    else:
        for p in PAIRS:
            for salt in range(6):
                out.append(('run', dict(groups=p, fam='words4', maxlen=4, maxsize=54, salts=[salt])))
                out.append(('run', dict(groups=p, fam='mixed', maxlen=2, maxsize=64, salts=[salt])))
        for p in TRIPLES:
            for salt in range(6):
                out.append(('run', dict(groups=p, fam='words4', maxlen=4, maxsize=48, salts=[salt])))
                out.append(('run', dict(groups=p, fam='mixed', maxlen=1, maxsize=48, salts=[salt])))
    return out


def run(ctx, groups, fam, maxlen, maxsize, salts):
    gs = [ref.group(g) for g in groups]
    es = words(gs, maxlen, maxsize) if fam.startswith('words') else mixed_exprs(gs, maxlen, maxsize)
    if fam == 'words4' and ctx.tier == 'quick': es = [e for e in es if len(str(lib.terms(e)[0]).split("'V")) > 4]
    es.sort(key=lambda e: str(lib.terms(e)))
    for salt in salts:
        seams.set_salt(salt)
        Gs = [g.make() for g in gs]
        for e in es:
            with ctx.scenario(f'{"|".join(groups)}: {ref.show(e)} salt{salt}') as s:
                if not s: continue
                rep = lib.build(e, *Gs)
                s.step()
                ctx.state(s.name)
                one(ctx, s, rep, e, gs, Gs)
    seams.set_salt(0)


def one(ctx, s, rep, e, gs, Gs):
    ds = [g.d for g in gs]
    n = ref.size(e, ds)
    if not s.check(rep.size() == n, f'size {rep.size()} != {n}'): return
    h = [g.elems(2)[1] for g in gs]
    R = ref.rho(e, h)
    hd = {G: lib.jn(x) for G, x in zip(Gs, h)}
    if not s.close(rep.rho_dense(hd), R, 'rho({G: g})'): return
    cplx = any(g.complex for g in gs)
    v = lib.probe(n, cplx=cplx)
    s.close(rep.rho(hd) @ lib.jn(v), R @ v, 'rho({G: g})@v')
    if all(len(g.lie) for g in gs):
        A = [(g.lie * (1 + np.arange(len(g.lie)))[:, None, None]).sum(0) for g in gs]
        s.close(rep.drho_dense({G: lib.jn(x) for G, x in zip(Gs, A)}), ref.drho(e, A), 'drho({G: A})')
    C, B = ref.invariants(e, gs)
    ctx.outcome(n, B.shape[1])
    Q = lib.dense(rep.equivariant_basis())
    if not s.check(Q.shape == (n, B.shape[1]), f'basis shape {Q.shape}, true dimension {B.shape[1]}'): return
    s.close(Q @ Q.conj().T, B @ B.conj().T, 'span of the basis')
    P = rep.equivariant_projector()
    W = B @ B.conj().T
    s.close(lib.dense(P), W, 'projector')
    s.close(P @ lib.jn(v), W @ v, 'projector@v')
    if B.shape[1]: ctx.sample({'scenario': s.name, 'dim': int(B.shape[1])})
