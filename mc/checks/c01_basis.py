"""C01: the equivariant basis is exactly the space of invariants."""
import numpy as np
from mc import ref, lib, seams

RULE = ('Every expression of the enumerated families (operator nesting depth) is built with the real operators for every '
        'listed group; the returned basis is compared with the float64 null space of independently derived constraints: '
        'orthonormal columns, every generator fixes every column, number of columns = true dimension.')
ASSUMPTIONS = ['single precision tolerances 2e-3', 'sizes bounded so that the documented absolute rank cut-off 1e-5 separates',
               'continuous groups: invariance under the identity component <=> annihilated by the Lie algebra']


def plan(tier):
    out = lib.shards('run', lib.std_spec(tier))
    ex = list(ref.extra_table())
    out += lib.shards('run', [('d1', 64, ex, 1), ('mult', 16 if tier == 'quick' else 64, ['C(50)', 'C(1000)', 'D(300)'], 1)])
    for salt in ((1, 2) if tier == 'quick' else (1, 2, 3, 4, 5)):
        out += lib.shards('run', [('d2s', 16 if tier == 'quick' else 30, ['SL(2)', 'S(2)'], 3), ('mult', 25, ['SL(2)', 'S(3)'], 2)], salt=salt)
    return out


def run(ctx, exprs, maxsize, groups, chunk, salt=0):
    if salt: seams.set_salt(salt)
    made = {g: ref.group(g).make() for g in groups}
    for g, e in lib.cases(exprs, maxsize, groups, chunk):
        name = f'{g.name}: {ref.show(e)}' + (f' salt{salt}' if salt else '')
        with ctx.scenario(name) as s:
            if not s: continue
            G = made[g.name]
            rep = lib.build(e, G)
            s.step()
            check_basis(ctx, s, rep, e, [g])
    if salt: seams.set_salt(0)


def check_basis(ctx, s, rep, e, gs):
    n = ref.size(e, [g.d for g in gs])
    C, B = ref.invariants(e, gs)
    Q = lib.dense(rep.equivariant_basis())
    ctx.state(s.name)
    ctx.outcome(n, B.shape[1])
    if not s.check(Q.ndim == 2 and Q.shape[0] == n, f'basis has {Q.shape} rows, representation has size {n}'): return
    if not s.check(np.all(np.isfinite(Q)), 'basis has non-finite entries'): return
    s.close(Q.conj().T @ Q, np.eye(Q.shape[1]), 'columns are not orthonormal')
    s.close(C @ Q, np.zeros((C.shape[0], Q.shape[1])), 'a returned column is not fixed by the group')
    s.check(Q.shape[1] == B.shape[1], f'{Q.shape[1]} columns but the invariants have dimension {B.shape[1]}')
    if B.shape[1]: ctx.sample({'scenario': s.name, 'size': n, 'dim_invariants': int(B.shape[1])})
