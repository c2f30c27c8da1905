"""C17: EMLP networks are equivariant end to end however they are configured."""
import numpy as np
from mc import ref, lib, seams, nets

RULE = ('Every configuration of the grid (framework x group x input/output representation, instantiated or not x form of the ch argument x number of layers) is built; '
        'with generic parameters (a function of the shape only, two values and both scales) the network must map every batch shape row by row to the right size and '
        'commute with every generator of the group and a generic element; the output must depend on the input whenever a linear equivariant map exists. The ODE variant '
        'takes (z,t); the Hamiltonian variant is a single invariant number, additive over the batch, with equivariant dynamics.')
ASSUMPTIONS = ['parameters are sampled at fixed generic points: the layer checks C14-C16 decide all parameter values']
V, T1, S = ('V', 0), ('T', ('V', 0)), ('1',)
BUDGET = {'quick': 600, 'thorough': 3000}


def ch_forms(V, S):
    """name -> (builder of the ch argument from (V rep [deferred or concrete], Scalar, G, uniform_rep), number of hidden layers it implies or None)"""
    return {
        'int7': (lambda V, S, G, u: 7, None),
        'int1': (lambda V, S, G, u: 1, None),
        'int20': (lambda V, S, G, u: 20, None),
        'Rep': (lambda V, S, G, u: 2 * V + 3 * S, None),
        'RepV': (lambda V, S, G, u: V, None),
        'RepS': (lambda V, S, G, u: S, None),
        'RepT2': (lambda V, S, G, u: V * V.T + S, None),
        'RepV2': (lambda V, S, G, u: V**2, None),
        'RepDual': (lambda V, S, G, u: V.T + V, None),
        'Repu': (lambda V, S, G, u: u(9, G), None),
        '[int]': (lambda V, S, G, u: [5], 1),
        '[ints]': (lambda V, S, G, u: [4, 9], 2),
        '[Rep]': (lambda V, S, G, u: [V + S], 1),
        '[Reps]': (lambda V, S, G, u: [2 * V, V * V + S, S + V], 3),
        '[mixed]': (lambda V, S, G, u: [6, S + V], 2),
        '[mixed2]': (lambda V, S, G, u: [V(G) + 2 * S, 5], 2),
        '(ints)': (lambda V, S, G, u: (6, 3), 2),
        '[]': (lambda V, S, G, u: [], 0),
    }


IO = {
    'V>V': (V, V), 'V+S>T2': (('+', V, S), ('*', V, V)), '2V>S': (('n*', 2, V), S), 'S>V': (S, V), 'V*V>V+S': (('*', V, T1), ('+', V, S)),
    'T>T+S': (T1, ('+', T1, S)), 'S+2V>2V+S': (('+', S, ('n*', 2, V)), ('+', ('n*', 2, V), S)), '3S>S': (('n*', 3, S), S),
}
GROUPS = ['SL(2)', 'S(3)', 'O(3)', 'SO11p()', 'Z(3)', 'SO(2)', 'DkeR3(3)', 'Sp(1)', 'Trivial(2)', 'Scaling(2)']


def configs(tier, fw):
    """(group, io, ch, num_layers, concrete)"""
    out = []
    forms = ch_forms(None, None)
    main = GROUPS[:2] if tier == 'quick' else GROUPS[:6]
    # every ch form x layers
    for g in main[:1 if fw != 'objax' and tier == 'quick' else None]:
        for ch, (f, L) in forms.items():
            for nl in ((1, 2) if L is None else (3,)):
                if nl == 2 and ch in ('int20', 'RepT2', 'RepV2') and tier == 'quick': continue
                io = 'V+S>T2' if (nl == 1) != (g == 'SL(2)') else '2V>S' if g == 'S(3)' else 'V>V'
                out.append((g, io, ch, nl, ch in ('Repu', '[mixed2]', 'RepV2') or nl == 2))
        out.append((g, 'V>V', 'int7', 0, False))
        out.append((g, 'V>V', 'RepS', 3, False))
    # every input/output pair
    for g in (main if fw == 'objax' or tier != 'quick' else main[1:]):
        for io in IO:
            for conc in (False, True) if tier != 'quick' or fw == 'objax' else (True,):
                out.append((g, io, 'int7' if not conc else 'Rep', 1, conc))
    # all groups
    if fw == 'objax':
        for g in lib.allgroups(6 if tier == 'quick' else 9):
            out.append((g, 'V>V', 'int7', 1, False))
            if tier != 'quick': out.append((g, 'V+S>T2', '[mixed]', 1, True))
    elif tier != 'quick':
        for g in GROUPS: out.append((g, '2V>S', '[mixed]', 1, False))
    return list(dict.fromkeys(out))


def plan(tier):
    out = []
    n = 8 if tier == 'quick' else 24
    for fw in nets.FRAMEWORKS:
        k = n if fw == 'objax' else max(2, n // 3)
        for i in range(k): out.append(('emlp', dict(fw=fw, tier=tier, chunk=[i, k])))
    for i in range(4): out.append(('variants', dict(tier=tier, chunk=[i, 4])))
    return out


def chunked(l, chunk):
    i, n = chunk
    return l[i::n]


def emlp(ctx, fw, tier, chunk):
    for cfg in chunked(configs(tier, fw), chunk): one(ctx, fw, 'EMLP', *cfg)


def variants(ctx, tier, chunk):
    out = []
    forms = ch_forms(None, None)
    for g in ('SL(2)', 'O(2)', 'DkeR3(3)') if tier == 'quick' else GROUPS:
        for ch in (('int7', 'Rep', '[ints]', '[mixed]', '[Rep]', 'Repu') if tier == 'quick' else forms):
            for nl in (1, 2):
                if forms[ch][1] is not None and nl > 1: continue
                for conc in (False, True) if tier != 'quick' else ((len(g) + nl) % 2 == 0,):
                    out.append(('EMLPode', g, 'S+2V>2V+S' if nl == 1 else 'V>V', ch, nl, conc))
                    out.append(('EMLPH', g, '2V>S', ch, nl, conc))
    out = chunked(out, chunk)
    for kind, *cfg in out: one(ctx, 'objax', kind, *cfg)


def make_args(io, ch, conc, g, G):
    import emlp.reps as R, emlp.nn as nn
    V = R.V(G) if conc else R.V
    ei, eo = IO[io]
    rin = ref.build(ei, [V]); rout = ref.build(eo, [V])
    return rin, rout, ch_forms(V, R.Scalar)[ch][0](V, R.Scalar, G, nn.uniform_rep)


def one(ctx, fw, kind, gname, io, ch, nl, conc):
    g = ref.group(gname)
    ei, eo = IO[io]
    with ctx.scenario(f'{fw} {kind} {gname}: {io} ch={ch} layers={nl}' + (' concrete' if conc else '')) as s:
        if not s: return
        s.step(); ctx.state(s.name)
        ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
        G = g.make()
        rin, rout, c = make_args(io, ch, conc, g, G)
        call = (lambda f, x: f(x, 0.)) if kind == 'EMLPode' else None
        net = nets.Net(fw, lambda m: getattr(m, kind)(rin, rout, G, ch=c, num_layers=nl), ni, call=call)
        if kind == 'EMLPH': hamiltonian(ctx, s, net, g, ei, ni)
        else: check_net(ctx, s, net, [g], ei, eo, ni, no)


def scaled(net, t, scale):
    """generic parameters; matrices scaled so that activations stay of order one"""
    return [p * (scale * (1. / np.sqrt(p.shape[-1]) if p.ndim > 1 else .7)) for p in net.generic(t)]


def check_net(ctx, s, net, gs, ei, eo, ni, no):
    cplx = any(g.complex for g in gs)
    X = lib.probe(4, ni, t=1, cplx=cplx)
    hs = lib.gen_tuples(gs)
    cv = (lambda a: a) if cplx else np.real
    rows = np.concatenate([X] + [X @ cv(ref.rho(ei, h)).T for h in hs])
    rows = rows.astype(np.complex64 if cplx else np.float32)
    if cplx and net.fw == 'torch': return
    for t, scale in ((0, 1.), (1, 3.)):
        ps = scaled(net, t, scale)
        y = net.apply(ps, rows)
        s.step(len(hs))
        if not s.check(y.shape == (len(rows), no), f'output of shape {y.shape} for {len(rows)} inputs'): return
        base = y[:4]
        s.check(np.isfinite(y).all(), 'output is not finite')
        for i, h in enumerate(hs):
            want = base @ cv(ref.rho(eo, h)).T
            sc = max(np.abs(base).max(), np.abs(want).max(), 1e-6)
            s.close(y[4 * (i + 1):4 * (i + 2)] / sc, want / sc, f'f(gx) = g f(x), generator {i}', tol=6e-3)
    ctx.outcome(s.name)
    # does the output react to the input (a linear equivariant map exists -> it must)
    _, NW = ref.invariants(('*', eo, ('T', ei)), gs)
    if ctx_dep(s, ei, eo, NW):
        s.check(np.abs(base - base[:1]).max() > 1e-6 * np.abs(base).max(), 'the output does not depend on the input')
    # batches
    sc = max(np.abs(base).max(), 1e-6)
    for sh in ((),) if ctx.tier == 'quick' else ((2, 2), (1,), (), (1, 3, 1)):
        n = int(np.prod(sh))
        s.close(net.apply(ps, rows[:n].reshape(sh + (ni,)), jit=False) / sc, base[:n].reshape(sh + (no,)) / sc, f'batch shape {sh}')
    z = rows[:4].copy(); z[1] *= -5.
    yz = net.apply(ps, z.reshape(2, 2, ni), jit=False).reshape(4, no)
    s.close(np.delete(yz, 1, 0) / sc, np.delete(base, 1, 0) / sc, 'a row depends on another row')
    ctx.sample({'net': s.name, 'parameters': [list(p.shape) for p in ps]})


def ctx_dep(s, ei, eo, NW):
    """claimed when every hidden layer of the user's choice contains the input type (otherwise there may be no path)"""
    return NW.shape[1] > 0 and (' layers=0' in s.name or 'V>V ' in s.name and any(f' ch={c} ' in s.name for c in ('Rep', 'RepV', '[Rep]', 'RepDual')))


def hamiltonian(ctx, s, net, g, ei, ni):
    import jax, jax.numpy as jnp
    X = lib.f32(lib.probe(3, ni, t=1))
    for t in (0, 1):
        ps = scaled(net, t, 1 + t)
        jps = [jnp.asarray(p) for p in ps]
        H = lambda x: net.pure(jps, x)
        if t == 0: vg = jax.jit(lambda ps, X: jax.vmap(jax.value_and_grad(lambda x: net.pure(ps, x)))(X))
        v, d = [np.asarray(a) for a in vg(jps, X)]
        if not s.check(v.shape == (3,), f'H(x) has shape {v.shape[1:]}'): return
        s.close(H(jnp.asarray(X)), v.sum(), 'H of a batch is the sum')
        s.close(np.asarray(jax.grad(H)(jnp.asarray(X))), d, 'gradient of a batch')
        h0 = np.asarray(net.obj.H(jnp.asarray(X[0]))) if hasattr(net.obj, 'H') else None
        s.check(h0 is not None and h0.shape == (), 'the model has a method H giving a number')
        for i, h in enumerate(g.tests()):
            s.step()
            R = np.real(ref.rho(ei, [h]))
            vg_, dg = [np.asarray(a) for a in vg(jps, lib.f32(X @ R.T))]
            s.close(vg_, v, 'H(gx) = H(x)', tol=6e-3)
            s.close(dg @ R, d, 'dH(gx) = g^-T dH(x)', tol=1e-2)
            if g.orthogonal():     # phase space: first half positions, second half momenta
                n = ni // 2
                J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
                s.close(dg @ J.T, d @ J.T @ R.T, 'the dynamics commute with the group', tol=1e-2)
    ctx.outcome(s.name)
