"""C07: representation algebra respects equality, duality and canonical ordering."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('All pairs of enumerated expressions per group are compared with ==: equal objects must act identically and hash equally, == must be '
        'reflexive and symmetric; every expression is dualised twice, canonicalised (and canonicalised again) and rebuilt from group-free '
        '(deferred) symbols, and each result is compared with the reference matrices.  Repeated for several hash orders.')
ASSUMPTIONS = ['actions are compared on generators and generic elements, including elements outside the group for the un-dualised expressions of general groups']


def plan(tier):
    out = []
    q = tier == 'quick'
    gsets = [['SL(2)', 'S(2)', 'U(2)'], ['SO(2)'], ['S(3)', 'SL(3)', 'SO(3)', 'Embed(SL(2),3,1:3)']]
    if not q: gsets += [['Scaling(2)', 'C(3)', 'SO11p()'], ['O(2)', 'D(3)', 'GL(2)', 'SU(2)', 'O11()'], ['Z(2)xZ(3)', 'Sp(3)'], ['Sp(2)', 'SO13()', 'SL(2)xZ(2)', 'Z(4)']]
    for gs in gsets:
        for fam, mx, n in ((('d1', 64, 1), ('mult', 16, 4), ('d2s', 9, 4)) if q else (('d1', 260, 2), ('mult', 48, 4), ('d2', 27, 8))):
            out += lib.shards('run', [(fam, mx, gs, n)])
    for salt in (1, 2) if q else (1, 2, 3, 4, 5):
        out += lib.shards('run', [('d2s' if q else 'd2', 6 if q else 16, ['SL(2)', 'S(2)'], 3)], salt=salt)
    for g in ['SL(2)', 'SO(2)', 'S(2)', 'U(2)', 'SL(3)', 'S(3)'] + ([] if q else ['SO11p()', 'Z(3)', 'Sp(1)', 'O(3)', 'GL(1)', 'Z(2)xZ(3)']):
        for salt in (0, 1) if q else (0, 1, 2, 3):
            out.append(('pairs', dict(groups=[g], fam='d1', maxsize=40, extra='mult', emax=10 if q else 18, salt=salt)))
    for gs in (['SL(2)', 'S(2)'], ['SO(2)', 'Z(3)'], ['Embed(SO(2),3,0:2)', 'Embed(SO(2),3,1:3)'], ['S(2)', 'Z(2)'], ['SL(2)', 'SO11p()']):
        for salt in (0, 1) if q else (0, 1, 2, 3):
            out.append(('mixedpairs', dict(groups=gs, maxsize=16 if q else 30, salt=salt)))
    return out


def run(ctx, **kw):
    lib.run_family(ctx, one, **kw)


def act_eq(s, rep, e, g, what, hs=None, wrap=None):
    for i, h in enumerate(hs or [g.elems(2)[1]] + g.gens()[:3]):
        R = ref.rho(e, [h])
        if wrap is not None: R = wrap(R)
        if not s.close(rep.rho_dense(lib.jn(h)), R, f'{what} (element {i})'): return False
    return True


def one(ctx, s, G, g, e, rep):
    n = ref.size(e, [g.d])
    ctx.outcome(n)
    s.check(rep == rep and not (rep != rep), '== is not reflexive')
    s.check(hash(rep) == hash(lib.build(e, G)) and rep == lib.build(e, G), 'building the same expression twice gives unequal representations')
    s.step(5)
    act_eq(s, rep.T, ('T', e), g, 'dual')
    act_eq(s, rep.T.T, e, g, 'double dual')
    s.check(rep.T.size() == n, 'size of the dual')
    check_canon(s, rep, n, lambda r: [np.asarray(r.rho_dense(lib.jn(h))) for h in [g.elems(2)[1]]], [ref.rho(e, [g.elems(2)[1]])])
    import emlp.reps as R
    free = ref.build(e, [R.V], tpq=lambda p, q: R.V**p * R.V.T**q)
    s.step()
    late = free(G)
    act_eq(s, late, e, g, 'expression instantiated with the group afterwards')
    s.check(late.size() == n, f'size {late.size()} after instantiation, {n} expected')
    late2 = free.T(G)
    act_eq(s, late2, ('T', e), g, 'dual expression instantiated afterwards', hs=[g.elems(2)[1]])
    act_eq(s, free(G), e, g, 'second instantiation', hs=[g.elems(2)[1]])
    if n > g.d: ctx.sample({'scenario': s.name, 'size': n})


def check_canon(s, rep, n, rho, want):
    c, perm = rep.canonicalize()
    perm = np.asarray(perm)
    s.step()
    if not s.check(perm.shape == (n,) and np.array_equal(np.sort(perm), np.arange(n)), 'canonicalize does not return a permutation'): return
    for a, b in zip(rho(c), want):
        s.close(a, b[perm][:, perm], 'canonical representation with the returned permutation')
    c2, perm2 = c.canonicalize()
    s.check(c2 == c and hash(c2) == hash(c), 'canonicalize is not idempotent')
    for a, b in zip(rho(c2), want):
        p = perm[np.asarray(perm2)]
        s.close(a, b[p][:, p], 'twice canonical representation')


def compare_all(ctx, name, reps, keys, mats, extra=''):
    """reps[i] with action fingerprint mats[i] (list of matrices)"""
    n = len(reps)
    nb = max(1, n // 12)
    for lo in range(0, n, nb):
        with ctx.scenario(f'{name}: expressions {lo}..{min(n, lo + nb) - 1} against all') as s:
            if not s: continue
            bad = 0
            for i in range(lo, min(n, lo + nb)):
                ctx.state(name, keys[i])
                for j in range(n):
                    a, b = reps[i] == reps[j], reps[j] == reps[i]
                    s.step()
                    if bad > 5: continue
                    if bool(a) != bool(b):
                        bad += 1; s.fail(f'== is not symmetric: {keys[i]} vs {keys[j]}')
                    if bool(a) == bool(reps[i] != reps[j]):
                        bad += 1; s.fail(f'!= disagrees with ==: {keys[i]} vs {keys[j]}')
                    if a:
                        ctx.outcome(name, i, j)
                        if hash(reps[i]) != hash(reps[j]):
                            bad += 1; s.fail(f'equal but different hashes: {keys[i]} vs {keys[j]}')
                        if any(x.shape != y.shape or np.abs(x - y).max() > 2e-3 * (1 + np.abs(x).max()) for x, y in zip(mats[i], mats[j])):
                            bad += 1; s.fail(f'equal but act differently: {keys[i]} vs {keys[j]}')
                        s.ok()


def pairs(ctx, groups, fam, maxsize, extra, emax, salt):
    seams.set_salt(salt)
    g = ref.group(groups[0])
    G = g.make()
    es = [e for e in lib.expr_set(fam) if ref.size(e, [g.d]) <= maxsize] + [e for e in lib.expr_set(extra) if ref.size(e, [g.d]) <= emax]
    es = list(dict.fromkeys(es))[:260]
    reps = [lib.build(e, G) for e in es]
    h = [g.elems(3)[1:], ]
    mats = [[ref.rho(e, [x]) for x in g.elems(3)[1:]] for e in es]
    compare_all(ctx, f'{g.name} salt{salt}', reps, [ref.show(e) for e in es], mats)
    seams.set_salt(0)


def mixedpairs(ctx, groups, maxsize, salt):
    from mc.checks import c06_mixed as c6
    seams.set_salt(salt)
    gs = [ref.group(x) for x in groups]
    Gs = [g.make() for g in gs]
    es = [('V', 0), ('V', 1), ('1',)] + c6.words(gs, 3, maxsize) + c6.mixed_exprs(gs, 1, maxsize)
    es = list(dict.fromkeys(es))[:220]
    nm = '|'.join(groups) + f' salt{salt}'
    reps, ok = [], []
    hs = [[g.elems(3)[k] for g in gs] for k in (1, 2)]
    for e in es:
        with ctx.scenario(f'{nm}: {ref.show(e)}') as s:
            if not s: continue
            rep = lib.build(e, *Gs)
            s.step()
            reps.append(rep); ok.append(e)
            n = ref.size(e, [g.d for g in gs])
            hd = [{G: lib.jn(x) for G, x in zip(Gs, h)} for h in hs]
            want = [ref.rho(e, h) for h in hs]
            check_canon(s, rep, n, lambda r: [np.asarray(r.rho_dense(x)) for x in hd], want)
            for x, w in zip(hd, want):
                s.close(rep.T.rho_dense(x), np.linalg.inv(w).T, 'dual')
                s.close(rep.T.T.rho_dense(x), w, 'double dual')
    compare_all(ctx, nm, reps, [ref.show(e) for e in ok], [[ref.rho(e, h) for h in hs] for e in ok])
    seams.set_salt(0)
