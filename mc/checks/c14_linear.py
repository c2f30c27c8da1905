"""C14: linear layers are equivariant for all parameters and lose no expressivity."""
import numpy as np
from mc import ref, lib, seams, nets

RULE = ('All pairs of representations from the family x groups (single and mixed) x frameworks. Every unit direction of the flattened parameters is enumerated: '
        'each reachable weight matrix must be an equivariant map and each reachable bias an invariant vector, and together they must span them all; the layer must be '
        'affine in the parameters, so this decides all parameter values. Generic parameters are additionally checked end to end against the generators, for batch '
        'shapes (), (1,), (3,), (2,3).')
ASSUMPTIONS = ['the layer is affine in its parameters (checked on generic values)']
V, T1, S = ('V', 0), ('T', ('V', 0)), ('1',)


def repset(tier):
    q = [S, V, T1, ('+', V, S), ('*', V, V), ('+', ('n*', 2, S), ('*', V, T1)), ('+', T1, ('n*', 2, V))]
    if tier == 'quick': return q
    return q + [('*', T1, V), ('+n', V, 2), ('+', ('*', V, V), ('+', V, S)), ('n*', 3, V), ('*', ('+', V, S), ('+', T1, S)), ('**', V, 3), ('tpq', 1, 2)]


GROUPS = ['SL(2)', 'S(3)', 'SO(2)', 'O(3)', 'SO11p()', 'Z(3)', 'Trivial(2)', 'Scaling(2)', 'DkeR3(3)', 'Sp(1)', 'S(2)', 'C(4)', 'O13()', 'Z(2)', 'O(1)', 'D(3)', 'GL(2)', 'Embed(SL(2),3,1:3)', 'SL(2)xZ(2)']
A, B = ('V', 0), ('V', 1)
MIXED = [A, B, ('*', A, B), ('*', B, A), ('+', A, B), ('+', ('*', A, ('T', B)), S), ('*', ('*', B, A), B), ('+', ('n*', 2, B), ('+', S, A))]
MPAIRS = [('SL(2)', 'S(3)'), ('S(2)', 'SO(2)'), ('O(2)', 'Z(3)')]


def plan(tier):
    out = []
    gs = GROUPS[:8] if tier == 'quick' else GROUPS
    mp = MPAIRS[:2] if tier == 'quick' else MPAIRS
    for fw in nets.FRAMEWORKS:
        for g in gs if fw == 'objax' or tier != 'quick' else [gs[0], gs[1], gs[4]]: out.append(('pairs', dict(fw=fw, groups=[g], tier=tier)))
        for p in mp if fw == 'objax' or tier != 'quick' else mp[1:]: out.append(('mixed', dict(fw=fw, groups=list(p), tier=tier)))
    out.append(('cplx', dict(tier=tier)))
    out.sort(key=lambda x: -max(ref.group(g).d for g in x[1].get('groups', ['O(1)'])))
    return out


def pairs(ctx, fw, groups, tier):
    run(ctx, fw, groups, repset(tier), tier)


def mixed(ctx, fw, groups, tier):
    run(ctx, fw, groups, MIXED, tier)


def run(ctx, fw, groups, reps, tier):
    gs = [ref.group(g) for g in groups]
    Gs = [g.make() for g in gs]
    ds = [g.d for g in gs]
    cap = 64 if tier == 'quick' else 330
    for ei in reps:
        for eo in reps:
            ni, no = ref.size(ei, ds), ref.size(eo, ds)
            if ni * no > cap: continue
            with ctx.scenario(f'{fw} {",".join(groups)}: {ref.show(ei)} -> {ref.show(eo)}') as s:
                if not s: continue
                one(ctx, s, fw, gs, Gs, ei, eo, ni, no)


def one(ctx, s, fw, gs, Gs, ei, eo, ni, no):
    rin, rout = lib.build(ei, *Gs), lib.build(eo, *Gs)
    net = nets.Net(fw, lambda m: m.Linear(rin, rout), ni)
    s.step(); ctx.state(s.name)
    X = lib.f32(lib.probe(6, ni, t=1))
    hs = lib.gen_tuples(gs)
    th = net.generic(1)
    W, b, Yg = probe(net, ni, no, th, np.concatenate([X] + [X @ np.real(ref.rho(ei, h)).T for h in hs]))
    P = W.shape[0]
    s.step(P)
    # equivariant maps and invariant vectors of the reference
    _, NW = ref.invariants(('*', eo, ('T', ei)), gs)
    _, Nb = ref.invariants(eo, gs)
    ctx.outcome(ni, no, NW.shape[1], Nb.shape[1])
    NW, Nb = np.real_if_close(NW), np.real_if_close(Nb)
    Wv = W.reshape(P, no * ni)
    s.close((NW @ (NW.T @ Wv.T)).T, Wv, 'a reachable weight is not equivariant')
    s.close((Nb @ (Nb.T @ b.T)).T, b, 'a reachable bias is not invariant')
    s.check(rank(Wv) == NW.shape[1], f'reachable weights span {rank(Wv)} dimensions of {NW.shape[1]}')
    s.check(rank(b) == Nb.shape[1], f'reachable biases span {rank(b)} dimensions of {Nb.shape[1]}')
    # weights and biases are reached independently
    s.check(rank(np.concatenate([Wv, b], 1)) == NW.shape[1] + Nb.shape[1], 'weights and biases cannot be chosen independently')
    # affine in the parameters, any batch shape
    flat = np.concatenate([t.reshape(-1) for t in th])
    Wg, bg = (flat @ Wv).reshape(no, ni), flat @ b
    Y = X @ Wg.T + bg
    s.close(Yg[:6], Y, 'the layer is affine in its parameters')
    for shape in ((2, 3), (1,), ()):
        x = X.reshape(shape + (ni,)) if shape == (2, 3) else X[:1].reshape(shape + (ni,))
        y = Y.reshape(shape + (no,)) if shape == (2, 3) else Y[:1].reshape(shape + (no,))
        s.close(net.apply(th, x, jit=False), y, f'batch shape {shape}')
    # end to end
    for i, h in enumerate(hs):
        s.close(Yg[6 * (i + 1):6 * (i + 2)], Y @ np.real(ref.rho(eo, h)).T, 'f(gx) = g f(x)', tol=4e-3)
        s.step()
    ctx.sample({'layer': s.name, 'parameters': P, 'maps': int(NW.shape[1]), 'biases': int(Nb.shape[1])})


def probe(net, ni, no, th=None, X=None):
    """(P,no,ni) weights and (P,no) biases for every unit parameter; outputs on X for the parameters th"""
    u, P = net.units()
    th = th or [np.zeros(sh, np.float32) for sh in net.shapes]
    u = [np.concatenate([a, np.zeros((1,) + tuple(sh), np.float32), t[None]]) for a, sh, t in zip(u, net.shapes, th)]
    x = np.concatenate([np.zeros((1, ni)), np.eye(ni)] + ([] if X is None else [X])).astype(np.float32)
    Y = net.apply_many(u, x)          # (P+2, rows, no)
    if np.abs(Y[P]).max(initial=0) > 1e-4: raise AssertionError('the layer is not zero for zero parameters')
    b = Y[:P, 0]
    W = (Y[:P, 1:ni + 1] - Y[:P, :1]).transpose(0, 2, 1)
    return (W, b) if X is None else (W, b, Y[P + 1, ni + 1:])


def rank(M):
    if not M.size: return 0
    S = np.linalg.svd(M.astype(np.complex128 if np.iscomplexobj(M) else np.float64), compute_uv=False)
    return int((S > 1e-3 * max(S.max(), 1e-3)).sum())


def cplx(ctx, tier):
    """complex groups (objax, flax, haiku): reachable maps are equivariant and span (over the complex numbers) everything"""
    for gname in ('U(1)', 'U(2)', 'SU(2)'):
        g = ref.group(gname)
        G = g.make()
        for fw in ('objax', 'flax', 'haiku'):
            for ei in (S, V, T1, ('*', V, T1), ('+', V, S)):
                for eo in (S, V, T1, ('*', V, V), ('+', S, T1)):
                    ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
                    if ni * no > 20: continue
                    with ctx.scenario(f'{fw} {gname}: {ref.show(ei)} -> {ref.show(eo)}') as s:
                        if not s: continue
                        rin, rout = lib.build(ei, G), lib.build(eo, G)
                        net = nets.Net(fw, lambda m: m.Linear(rin, rout), ni)
                        W, b = probe(net, ni, no)
                        s.step(len(W)); ctx.state(s.name)
                        _, NW = ref.invariants(('*', eo, ('T', ei)), [g])
                        _, Nb = ref.invariants(eo, [g])
                        Wv = W.reshape(len(W), -1)
                        s.close((NW @ (NW.conj().T @ Wv.T)).T, Wv, 'a reachable weight is not equivariant')
                        s.close((Nb @ (Nb.conj().T @ b.T)).T, b, 'a reachable bias is not invariant')
                        s.check(rank(Wv) == NW.shape[1], f'reachable weights span {rank(Wv)} dimensions of {NW.shape[1]}')
                        s.check(rank(b) == Nb.shape[1], f'reachable biases span {rank(b)} dimensions of {Nb.shape[1]}')
