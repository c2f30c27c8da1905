"""C10: group orthogonality and permutation flags are true and names are unique."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('All built-in constructors over all parameters up to the bound plus embeddings and products: the flags equal the facts about the '
        'generators; all pairs of groups are compared with ==: equal only if dimension and generated action are the same, equal groups '
        'hash equally, a group equals a second construction of itself and is usable as a dictionary key.')
ASSUMPTIONS = ['all elements are orthogonal/permutations iff all generators are']


def specs(tier):
    from mc.checks import c09_groups as c9
    out = [(g.name, g.ctor, g.lie, g.disc, g.d) for g in ref.table().values()]
    for sp in c9.parametric(tier):
        ctor, lie, disc, d = c9.refspec(sp)
        out.append((ctor, ctor, ref._NO(d) if lie is None else lie, ref._NO(d) if disc is None else disc, d))
    # names whose arguments could run together, nested embeddings and products
    E, X = ref.embed, ref.dprod
    t = ref.table()
    def emb(b, dd, a, c):
        l, h = E(b.lie, b.disc, dd, slice(a, c)); return ref.RG('', f'G.Embed({b.ctor},{dd},slice({a},{c}))', l, h, dd)
    def xx(a, b):
        l, h = X(a, b); return ref.RG('', f'({a.ctor}*{b.ctor})', l, h, a.d * b.d)
    nested = [emb(emb(t['SO(2)'], 3, 0, 2), 4, 0, 3), emb(emb(t['SO(2)'], 3, 1, 3), 4, 0, 3), emb(emb(t['SO(2)'], 3, 0, 2), 4, 1, 4), emb(t['SO(2)'], 4, 0, 2), emb(t['SO(2)'], 4, 1, 3),
              xx(t['Z(2)'], xx(t['Z(3)'], t['S(2)'])), xx(xx(t['Z(2)'], t['Z(3)']), t['S(2)']), xx(t['S(2)'], xx(t['Z(3)'], t['Z(2)'])), xx(t['Z(3)'], t['Z(2)']), xx(t['Z(2)'], t['Z(3)']),
              emb(xx(t['S(2)'], t['Z(2)']), 5, 0, 4), emb(xx(t['S(2)'], t['Z(2)']), 5, 1, 5), xx(emb(t['SO(2)'], 3, 0, 2), t['S(2)']), xx(emb(t['SO(2)'], 3, 1, 3), t['S(2)']), xx(t['S(2)'], emb(t['SO(2)'], 3, 1, 3)),
              emb(t['C(4)'], 3, 0, 2), emb(t['S(3)'], 4, 0, 3), emb(t['S(3)'], 4, 1, 4), xx(t['S(3)'], t['Trivial(2)']), xx(t['Trivial(2)'], t['S(3)'])]
    out += [(g.ctor, g.ctor, g.lie, g.disc, g.d) for g in nested]
    out += [(g.name, g.ctor, g.lie, g.disc, g.d) for g in ref.extra_table().values()]
    for k, (l, h) in ref.near_gens().items():
        d = len((h if l is None else l)[0])
        out.append((k, f"mine('{k}')", ref._NO(d) if l is None else l, ref._NO(d) if h is None else h, d))
    seen, r = set(), []
    for x in out:
        if x[1] not in seen:
            seen.add(x[1]); r.append(x)
    return r


def plan(tier):
    n = 8
    return [('flags', dict(i=i, n=n)) for i in range(n)] + [('pairs', dict(i=i, n=n, salt=s)) for i in range(n) for s in ((0,) if tier == 'quick' else (0, 1))]


def mk(sp):
    return ref.RG(*sp)


def flags(ctx, i, n):
    for sp in specs(ctx.tier)[i::n]:
        if sp[4] > 64: continue
        with ctx.scenario(f'flags of {sp[0]}') as s:
            if not s: continue
            g = mk(sp)
            G = g.make()
            s.step(); ctx.state(s.name)
            o, p = g.orthogonal(), g.permutation()
            ctx.outcome(o, p)
            s.check(bool(G.is_orthogonal) == o, f'is_orthogonal={G.is_orthogonal}, truth {o}')
            s.check(bool(G.is_permutation) == p, f'is_permutation={G.is_permutation}, truth {p}')
            import emlp.reps as R
            s.check(bool(R.V(G).is_permutation) == p, 'is_permutation of V(G)')
            # the consequence of the flag: the dual of V
            v = R.V(G).T
            for h in g.tests(1): s.close(v.rho_dense(lib.jn(h)), np.linalg.inv(h).T, 'dual of the base representation')
            ctx.sample({'group': sp[0], 'orthogonal': o, 'permutation': p})


def same_group(a, b):
    if a.d != b.d: return False
    if len(a.lie) != len(b.lie) or len(a.disc) != len(b.disc): return False
    return all(np.abs(x - y).max() < 1e-6 for x, y in zip(list(a.lie) + list(a.disc), list(b.lie) + list(b.disc)))


def pairs(ctx, i, n, salt):
    seams.set_salt(salt)
    sp = specs(ctx.tier)
    if ctx.tier == 'quick': sp = [x for x in sp if x[4] <= 16]
    refs = [mk(x) for x in sp]
    Gs = [r.make() for r in refs]
    for a in range(i, len(sp), n):
        with ctx.scenario(f'{sp[a][0]} against all salt{salt}') as s:
            if not s: continue
            ctx.state(s.name)
            G = Gs[a]
            again = refs[a].make()
            s.check(G == again and hash(G) == hash(again) and not (G != again), 'a second construction is not equal')
            table = {H: k for k, H in enumerate(Gs) if k != a}
            table[G] = a
            s.check(table.get(again) == a, 'dictionary keyed by the group does not find it')
            for b in range(len(sp)):
                s.step()
                e = G == Gs[b]
                s.check(bool(e) == bool(Gs[b] == G), f'== with {sp[b][0]} is not symmetric')
                if e:
                    ctx.outcome(a, b)
                    s.check(hash(G) == hash(Gs[b]), f'equal to {sp[b][0]} with another hash')
                    s.check(same_group(refs[a], refs[b]) or same_action(refs[a], refs[b]), f'compares equal to {sp[b][0]}')
    seams.set_salt(0)


def same_action(a, b):
    if a.d != b.d: return False
    if not len(a.lie) and not len(b.lie):
        A, B = a.closure(), b.closure()
        return A is not None and B is not None and set(A) == set(B)
    e = [('tpq', p, q) for p in range(3) for q in range(3 - p) if p + q]
    for x in e:
        C1, B1 = ref.invariants(x, [a]); C2, B2 = ref.invariants(x, [b])
        if B1.shape != B2.shape or np.abs(B1 @ B1.conj().T - B2 @ B2.conj().T).max() > 1e-6: return False
    return len(a.lie) == len(b.lie)
