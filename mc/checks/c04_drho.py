"""C04: the Lie algebra representation is the derivative of the group representation."""
import numpy as np
from scipy.linalg import expm
from mc import ref, lib

RULE = ('Every expression x Lie group: drho of every Lie generator, of linear combinations and of commutators equals the Leibniz-rule '
        'matrix of the written expression (itself cross-checked against a central difference of the reference rho); representations '
        'that define only rho are included through user-defined matrix functions combined with the built-in operators.')
ASSUMPTIONS = ['drho is linear in A: checked on a basis of the Lie algebra plus combinations']


def plan(tier):
    lies = [n for n, g in ref.table().items() if len(g.lie) and g.d <= 8]
    spec = []
    for name, mx, gs, n in lib.std_spec(tier, big=25 if tier == 'quick' else 36, small=(tier == 'quick')):
        gs = [x for x in gs if x in lies]
        if gs: spec.append((name, mx, gs, n))
    out = lib.shards('run', spec)
    out += lib.shards('run', [('d1', 36, [n for n, g in ref.extra_table().items() if len(g.lie)], 1)])
    out += lib.shards('run', [('mult', 16, ['SL(2)', 'U(2)'], 2)], salt=1)
    cg = ['SO(2)', 'SL(2)', 'O(2)', 'U(2)', 'SO11p()', 'SO(3)', 'Scaling(2)', 'SO2eR3()', 'SO13p()', 'GL(2)', 'U(1)', 'SO(2)xS(2)', 'SL(2)xZ(2)']
    for g in cg: out.append(('custom', dict(group=g)))
    return out


def run(ctx, **kw):
    lib.run_family(ctx, one, **kw)


def algebra(g):
    As = list(g.lie)
    if len(As) > 1:
        As = As + [sum((.5 - .3 * k) * A for k, A in enumerate(g.lie)), As[0] @ As[-1] - As[-1] @ As[0], 2.5 * As[0]]
    else: As = As + [-1.7 * As[0]]
    return As


def one(ctx, s, G, g, e, rep):
    n = ref.size(e, [g.d])
    for k, A in enumerate(algebra(g)):
        D = ref.drho(e, [A])
        if k == 0:
            t = 1e-4
            num = (ref.rho(e, [expm(t * A)]) - ref.rho(e, [expm(-t * A)])) / (2 * t)
            assert np.abs(num - D).max() < 1e-5 * (1 + np.abs(D).max()), 'reference model is inconsistent'
        if not s.close(rep.drho_dense(lib.jn(A)), D, f'drho(A{k})'): return
    v, M = lib.probe(n, cplx=g.complex), lib.probe(n, 2, cplx=g.complex, t=2)
    op = rep.drho(lib.jn(A))
    s.close(op @ lib.jn(v), D @ v, 'drho(A)@v')
    s.close(op @ lib.jn(M), D @ M, 'drho(A)@M')
    if 'lazy' in g.tags:
        for i, A in enumerate(list(G.lie_algebra)[:2]):
            Ad = np.asarray(A @ np.eye(g.d, dtype=np.float32))
            s.close(lib.dense(rep.drho(A)), ref.drho(e, [Ad]), f'drho(lazy Lie generator {i})')
    if n > g.d: ctx.sample({'scenario': s.name, 'size': n})


def custom(ctx, group):
    g = ref.group(group)
    G = g.make()
    import emlp.reps as R
    from mc import customs
    for cname, mk in customs.REPS.items():
        base = mk(G)
        fr = customs.REFS[cname]
        r0 = fr(np.eye(g.d)).shape[0]
        comb = {'X': ((lambda X, V: X), lambda X, W: X),
                'X+V': ((lambda X, V: X + V), lambda X, W: ref._bd([X, W])),
                'V+X': ((lambda X, V: V + X), lambda X, W: ref._bd([W, X])),
                'V*X': ((lambda X, V: V * X), lambda X, W: np.kron(W, X)),
                'X*V': ((lambda X, V: X * V), lambda X, W: np.kron(X, W)),
                'X.T': ((lambda X, V: X.T), lambda X, W: np.linalg.inv(X).T),
                'X.T*V+2*X': ((lambda X, V: X.T * V + 2 * X), lambda X, W: ref._bd([np.kron(np.linalg.inv(X).T, W), X, X])),
                'X**2': ((lambda X, V: X**2), lambda X, W: np.kron(X, X))}
        for lab, (fl, fm) in comb.items():
            n = fm(fr(np.eye(g.d)), np.eye(g.d)).shape[0]
            if n > 64: continue
            with ctx.scenario(f'{group}: {lab} with X={cname}') as s:
                if not s: continue
                rep = fl(base, R.V(G))
                s.step()
                ctx.state(s.name)
                if not s.check(rep.size() == n, f'size {rep.size()} != {n}'): continue
                if g.orthogonal() and '.T' in lab and cname in customs.NONORTH: continue
                for k, A in enumerate(algebra(g)):
                    t = 1e-4
                    f = lambda t: fm(fr(expm(t * A)), expm(t * A))
                    D = (f(t) - f(-t)) / (2 * t)
                    ctx.outcome(lab, n)
                    if not s.close(rep.drho_dense(lib.jn(A)), D, f'drho(A{k})'): break
                    v = lib.probe(n, cplx=g.complex)
                    s.close(rep.drho(lib.jn(A)) @ lib.jn(v), D @ v, f'drho(A{k})@v')
