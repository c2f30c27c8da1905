"""C09: built-in groups are the groups they are documented to be."""
import numpy as np
from mc import ref, lib

RULE = ('Every built-in constructor over all parameters up to the bound: dimension, span of the Lie algebra, bracket closure; finite groups: the '
        'complete set of elements generated by the library generators equals the independently generated documented group (or, for the large '
        'permutation groups, same order and mutual membership); disconnected Lie groups: components, and equality of the invariants of all '
        'tensor powers up to rank 4; embeddings and products act on the documented coordinates.')
ASSUMPTIONS = ['two groups with the same Lie algebra span and the same discrete generators modulo the identity component are the same',
               'order of the cube group of the 48 stickers: 43252003274489856000']

DEGENERATE = ['SU(1)', 'SO(1)', 'S(1)', 'SL(1)', 'Z(1)', 'U(1)', 'GL(1)', 'O(1)', 'Trivial(1)']


def plan(tier):
    names = list(ref.table())
    extra = parametric(tier)
    k = 8
    out = [('run', dict(names=names[i::k])) for i in range(k)]
    out += [('param', dict(specs=extra[i::k])) for i in range(k)]
    out += [('degenerate', {}), ('rubik', {})]
    return out


def parametric(tier):
    """constructor families beyond the shared table"""
    q = tier == 'quick'
    out = []
    for k in range(9, 13 if q else 25): out += [('C', k), ('D', k)]
    for n in range(7, 9 if q else 13): out += [('Z', n)]
    for n in (6, 7) if q else (6, 7, 8, 9): out += [('SO', n), ('O', n)]
    for m in (4,) if q else (4, 5): out += [('Sp', m)]
    for n in (5,) if q else (5, 6): out += [('SL', n), ('GL', n), ('SU', n), ('U', n)]
    out += [('SU', 4), ('U', 4), ('GL', 4), ('Trivial', 6), ('Scaling', 5), ('S', 7)]
    for k, n in ((2, 4), (4, 4), (2, 5)) + (() if q else ((4, 5), (2, 6), (4, 6))): out.append(('ZksZnxZn', k, n))
    for b in ('SO(2)', 'O(2)', 'C(3)', 'D(2)', 'S(2)', 'U(2)', 'SO11p()', 'Trivial(2)', 'SL(2)', 'SO(3)', 'Z(3)'):
        d0 = ref.group(b).d
        for dd in (d0, d0 + 1, d0 + 2):
            for a in range(dd - d0 + 1): out.append(('Embed', b, dd, a, a + d0))
    for k in (5, 7, 8): out.append(('DkeR3', k))
    small = ['SO(2)', 'O(2)', 'S(2)', 'Z(2)', 'Z(3)', 'SL(2)', 'C(3)', 'D(2)', 'Trivial(2)', 'SO(3)', 'S(3)', 'SO11p()', 'U(1)', 'SU(2)', 'Scaling(2)'] + ([] if q else ['Sp(1)', 'GL(2)', 'O11()', 'Z(4)', 'C(4)', 'SO13()'])
    for a in small:
        for b in small: out.append(('x', a, b))
    for a in ('S(2)', 'SO(2)', 'Z(2)'):
        for b in ('Z(2)', 'SL(2)'):
            for c in ('S(2)', 'C(3)'): out.append(('xx', a, b, c))
    return out


def refspec(sp):
    k = sp[0]
    mk = ref._stack
    if k == 'C': return 'G.C(%d)' % sp[1], None, mk([ref.rot2(2 * np.pi / sp[1])], 2), 2
    if k == 'D': return 'G.D(%d)' % sp[1], None, mk([ref.rot2(2 * np.pi / sp[1]), np.diag([-1., 1])], 2), 2
    if k == 'Z': return 'G.Z(%d)' % sp[1], None, ref.z_gens(sp[1]), sp[1]
    if k == 'S': return 'G.S(%d)' % sp[1], None, ref.s_gens(sp[1]), sp[1]
    if k == 'SO': return 'G.SO(%d)' % sp[1], ref.so_alg(sp[1]), None, sp[1]
    if k == 'O': return 'G.O(%d)' % sp[1], ref.so_alg(sp[1]), mk([np.diag([-1.] + [1.] * (sp[1] - 1))], sp[1]), sp[1]
    if k == 'Sp': return 'G.Sp(%d)' % sp[1], ref.sp_alg(sp[1]), None, 2 * sp[1]
    if k == 'SL': return 'G.SL(%d)' % sp[1], ref.sl_alg(sp[1]), None, sp[1]
    if k == 'GL': return 'G.GL(%d)' % sp[1], ref.gl_alg(sp[1]), None, sp[1]
    if k in ('U', 'SU'): return f'G.{k}({sp[1]})', ref.u_alg(sp[1], k == 'SU'), None, sp[1]
    if k == 'Trivial': return 'G.Trivial(%d)' % sp[1], None, None, sp[1]
    if k == 'Scaling': return 'G.Scaling(%d)' % sp[1], mk([np.eye(sp[1])], sp[1]), None, sp[1]
    if k == 'ZksZnxZn': return f'G.ZksZnxZn({sp[1]},{sp[2]})', None, ref.zkszn_gens(sp[1], sp[2]), sp[1] * sp[2]**2
    if k == 'Embed':
        b = ref.group(sp[1])
        l, h = ref.embed(b.lie, b.disc, sp[2], slice(sp[3], sp[4]))
        return f'G.Embed({b.ctor},{sp[2]},slice({sp[3]},{sp[4]}))', l, h, sp[2]
    if k == 'DkeR3':
        l, h = ref.embed(np.zeros((0, 2, 2)), mk([ref.rot2(2 * np.pi / sp[1]), np.diag([-1., 1])], 2), 3, slice(2))
        return f'G.DkeR3({sp[1]})', l, h, 3
    if k == 'x':
        a, b = ref.group(sp[1]), ref.group(sp[2])
        return f'{a.ctor}*{b.ctor}', *ref.dprod(a, b), a.d * b.d
    if k == 'xx':
        a, b, c = (ref.group(x) for x in sp[1:])
        ab = ref.RG('t', '', *ref.dprod(a, b), a.d * b.d)
        return f'{a.ctor}*{b.ctor}*{c.ctor}', *ref.dprod(ab, c), ab.d * c.d
    raise ValueError(sp)


def run(ctx, names):
    for nm in names:
        g = ref.group(nm)
        if nm == 'RubiksCube()': continue
        with ctx.scenario(nm) as s:
            if not s: continue
            check_group(ctx, s, g.make(), g)


def param(ctx, specs):
    for sp in specs:
        ctor, lie, disc, d = refspec(tuple(sp))
        g = ref.RG(ctor, ctor, ref._NO(d) if lie is None else lie, ref._NO(d) if disc is None else disc, d)
        with ctx.scenario(ctor) as s:
            if not s: continue
            check_group(ctx, s, g.make(), g)


def mats(xs, d):
    return [np.asarray(x @ np.eye(d, dtype=np.float32)) if not isinstance(x, np.ndarray) else x for x in xs]


def check_group(ctx, s, G, g):
    s.step()
    ctx.state(s.name)
    if not s.check(G.d == g.d, f'dimension {G.d} instead of {g.d}'): return
    lie, disc = mats(G.lie_algebra, g.d), mats(G.discrete_generators, g.d)
    for m in lie + disc:
        if not s.check(m.shape == (g.d, g.d) and np.all(np.isfinite(m)), f'generator of shape {m.shape}'): return
    L1 = np.array(lie).reshape(len(lie), g.d * g.d)
    L2 = g.lie.reshape(len(g.lie), g.d * g.d)
    def realrows(L): return np.concatenate([np.real(L), np.imag(L)], 1) if len(L) else np.zeros((0, 2 * g.d**2))
    r1, r2, r12 = (np.linalg.matrix_rank(M, tol=1e-4) if len(M) else 0 for M in (realrows(L1), realrows(L2), realrows(np.concatenate([L1, L2]) if len(L1) or len(L2) else L1)))
    ctx.outcome(g.d, r2, len(g.disc))
    s.check(r1 == r2 == r12, f'Lie algebra spans dimension {r1}, documented {r2}, together {r12}')
    if g.permutation() and g.d > 4:
        perm_compare(s, disc, g)
    elif not len(g.lie):
        A, B = ref.closure(clean(disc), g.d), g.closure()
        if A is None and B is None: perm_compare(s, disc, g)
        elif s.check(A is not None and B is not None and len(A) == len(B), f'order {A and len(A)} instead of {B and len(B)}'):
            s.check(set(A) == set(B), 'the generated elements are not the documented ones')
    else:
        for h in disc:
            s.check(abs(abs(np.linalg.det(h))) > 1e-6, 'singular discrete generator')
        # invariants of tensor powers decide the discrete part (given the Lie algebra)
        lg = ref.RG(g.name, '', np.array(lie).reshape(len(lie), g.d, g.d), np.array(disc).reshape(len(disc), g.d, g.d), g.d)
        for p in range(5):
            for q in range(5 - p):
                if p + q == 0 or g.d**(p + q) > (81 if len(g.disc) == 0 else 260): continue
                e = ('tpq', p, q)
                C1, B1 = ref.invariants(e, [g])
                C2 = ref.constraints(e, [lg])
                s.check(lg_null(C2) == B1.shape[1], f'T({p},{q}) has {lg_null(C2)} invariants, documented group {B1.shape[1]}')
                s.close(C2 @ B1, np.zeros((len(C2), B1.shape[1])), f'an invariant of the documented group in T({p},{q}) is not fixed')
        s.check(len(disc) == len(g.disc) or len(disc) >= 1 or not len(g.disc), 'discrete generators are missing')
    ctx.sample({'group': g.name, 'd': g.d, 'dim_lie': int(r1), 'discrete': len(disc)})


def clean(disc):
    return [np.where(np.abs(h) < 1e-6, 0, h) for h in disc]


def lg_null(C):
    S = np.linalg.svd(C, compute_uv=False)
    return C.shape[1] - int((S > 1e-4 * max(1, S.max() if len(S) else 1)).sum())


def toperm(h):
    return [int(np.argmax(r)) for r in np.real(h)]


def perm_compare(s, disc, g, order=None):
    from sympy.combinatorics import Permutation, PermutationGroup
    for h in disc:
        if not s.check(np.array_equal(np.real(h), ref.permmat(toperm(h))), 'generator is not a permutation matrix'): return
    A = PermutationGroup([Permutation(toperm(h)) for h in disc] or [Permutation(list(range(g.d)))])
    B = PermutationGroup([Permutation(toperm(h)) for h in g.disc] or [Permutation(list(range(g.d)))])
    s.check(A.order() == B.order(), f'order {A.order()} instead of {B.order()}')
    if order: s.check(A.order() == order, f'order {A.order()} instead of {order}')
    for h in disc: s.check(B.contains(Permutation(toperm(h))), 'a generator is not in the documented group')
    for h in g.disc: s.check(A.contains(Permutation(toperm(h))), 'an element of the documented group is not generated')


def rubik(ctx):
    with ctx.scenario('RubiksCube()') as s:
        if not s: return
        g = ref.group('RubiksCube()')
        G = g.make()
        s.step(); ctx.state(s.name)
        s.check(G.d == 48 and len(G.lie_algebra) == 0, 'dimension')
        disc = mats(G.discrete_generators, 48)
        perm_compare(s, disc, g, 43252003274489856000)
        # documented: generated by quarter turns (up to orientation) of each face
        want = [toperm(h) for h in g.disc] + [list(np.argsort(toperm(h))) for h in g.disc]
        for h in disc: s.check(toperm(h) in want, 'a generator is not a quarter turn of a face')


def degenerate(ctx):
    import emlp.groups as G
    for nm in DEGENERATE:
        with ctx.scenario(nm + ' (degenerate)') as s:
            if not s: continue
            g = eval('G.' + nm)
            s.step(); ctx.state(s.name)
            s.check(g.d == 1, f'dimension {g.d}')
            want = {'U(1)': 1, 'GL(1)': 1}.get(nm, 0)
            s.check(len(g.lie_algebra) == want, f'{len(g.lie_algebra)} Lie generators')
            import emlp.reps as R
            r = R.V(g) + R.V(g)
            dim = 2 if nm in ('SU(1)', 'SO(1)', 'S(1)', 'SL(1)', 'Z(1)', 'Trivial(1)') else 0
            s.check(lib.dense(r.equivariant_basis()).shape == (2, dim), 'invariants of V+V')
