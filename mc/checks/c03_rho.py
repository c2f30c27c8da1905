"""C03: representation matrices follow the written expression."""
import numpy as np
from mc import ref, lib

RULE = ('Every expression x group: rho of every generator, of generic elements, of products and of the identity, given densely or as '
        "the group's own (lazy) generators, densified or applied to vectors/matrices, equals the block-diagonal/Kronecker matrix of the "
        'written expression; size() equals its dimension.')
ASSUMPTIONS = ['a matrix identity that is polynomial in g (and g^-1) is checked at generators, generic elements and products']


def plan(tier):
    spec = lib.std_spec(tier, big=25 if tier == 'quick' else 36, small=(tier == 'quick'))
    out = lib.shards('run', spec)
    out += lib.shards('run', [('d1', 36, list(ref.extra_table()), 1)])
    out += lib.shards('run', [('mult', 16, ['SL(2)', 'S(2)'], 2)], salt=1)
    out += lib.shards('run', [('d2s', 12, ['SL(2)'], 2)], salt=2)
    return out


def run(ctx, **kw):
    lib.run_family(ctx, one, **kw)


def one(ctx, s, G, g, e, rep):
    n = ref.size(e, [g.d])
    ctx.outcome(n)
    s.check(rep.size() == n, f'size() is {rep.size()}, the expression has dimension {n}')
    el = g.elems(2)
    gens = g.gens()
    gens = gens[:3] + gens[-1:] if len(gens) > 4 else gens
    tests = [('e', np.eye(g.d))] + [(f'gen{i}', h) for i, h in enumerate(gens)] + [(f'g{i}', h) for i, h in enumerate(el)] + [('g0g1', el[0] @ el[1])]
    for lab, h in tests:
        if not s.close(rep.rho_dense(lib.jn(h)), ref.rho(e, [h]), f'rho({lab})'): return
    h = el[1]
    R = ref.rho(e, [h])
    v, M = lib.probe(n, cplx=g.complex), lib.probe(n, 2, cplx=g.complex, t=2)
    op = rep.rho(lib.jn(h))
    s.close(op @ lib.jn(v), R @ v, 'rho(g)@v')
    s.close(op @ lib.jn(M), R @ M, 'rho(g)@M')
    lazygens = [x for x in G.discrete_generators] if 'lazy' in g.tags else []
    for i, h in enumerate(lazygens[:2]):
        D = np.asarray(h @ np.eye(g.d, dtype=np.float32))
        op = rep.rho(h)
        s.close(lib.dense(op), ref.rho(e, [D]), f'rho(lazy generator {i})')
        s.close(op @ lib.jn(v), ref.rho(e, [D]) @ v, f'rho(lazy generator {i})@v')
    if n > g.d: ctx.sample({'scenario': s.name, 'size': n})
