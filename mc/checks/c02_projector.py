"""C02: the equivariant projector is the orthogonal projector onto the invariants."""
import numpy as np
from mc import ref, lib

RULE = ('Every expression of the enumerated families x every listed group: the projector is compared with B B^H of the float64 '
        'null space of the reference constraints, densified, applied to a vector, a column, a matrix, twice, and through .T/.H.')
ASSUMPTIONS = ['single precision tolerance 2e-3 relative']


def plan(tier):
    spec = lib.std_spec(tier, small=(tier == 'quick'))
    if tier == 'thorough': spec = [x for x in spec if x[0] != 'd3s']
    out = lib.shards('run', spec)
    out += lib.shards('run', [('d1', 64, list(ref.extra_table()), 1)])
    out += lib.shards('run', [('mult', 16, ['SL(2)', 'S(2)'], 2)], salt=1)
    out += lib.shards('run', [('d2s', 12, ['SL(2)'], 2)], salt=2)
    return out


def run(ctx, **kw):
    lib.run_family(ctx, one, **kw)


def check_projector(s, P, B, n, cplx):
    want = B @ B.conj().T
    D = lib.dense(P)
    if not s.close(D, want, 'dense projector'): return
    if not s.check(tuple(P.shape) == (n, n), f'projector has shape {P.shape}'): return
    v, M = lib.probe(n, cplx=cplx), lib.probe(n, 3, cplx=cplx, t=1)
    vj, Mj = lib.jn(v), lib.jn(M)
    s.close(P @ vj, want @ v, 'P@v')
    s.close(P @ vj[:, None], (want @ v)[:, None], 'P@column')
    s.close(P @ Mj, want @ M, 'P@M')
    s.close(P @ (P @ vj), want @ v, 'P is not idempotent')
    s.close(P.H @ vj, want @ v, 'P.H@v')
    s.close(P.T @ vj, want.T @ v, 'P.T@v')
    s.close(P.H @ Mj, want @ M, 'P.H@M')
    s.close(P @ lib.jn(B), B, 'an invariant vector is changed') if B.shape[1] else None


def one(ctx, s, G, g, e, rep):
    n = ref.size(e, [g.d])
    C, B = ref.invariants(e, [g])
    ctx.outcome(n, B.shape[1])
    check_projector(s, rep.equivariant_projector(), B, n, g.complex)
    if 0 < B.shape[1] < n: ctx.sample({'scenario': s.name, 'size': n, 'rank': int(B.shape[1])})
