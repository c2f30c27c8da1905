"""C18: all frameworks agree and PyTorch gradients are the true gradients."""
import itertools
import numpy as np
from mc import ref, lib, seams, nets

RULE = ('(a) every layer kind x representation pair x group is built in the four frameworks with the same enumerated selections and given the same parameter tensors (every '
        'single-parameter direction plus generic values); outputs must agree, and torch gradients with respect to inputs and parameters must equal the gradients of the '
        'objax layer. (b) torchify_fn: for a family of functions (nested arguments/outputs, several outputs, integer, python and complex arguments, shared and non-leaf '
        'tensors) all subsets of requires_grad and all histories up to the stated length of forward calls, backward passes on older/newer/joint outputs, repeated backwards, '
        'no_grad calls and gradient resets are executed, in lock step with a native torch implementation; outputs and every .grad are compared after each operation. (c) the same for '
        'histories with in-place changes of outputs, inputs and gradients: no other tensor and no later call may be affected.')
ASSUMPTIONS = ['random selections are pinned through np.random.choice/binomial', 'second derivatives through torchified functions are not covered']
V, T1, S = ('V', 0), ('T', ('V', 0)), ('1',)


def plan(tier):
    q = tier == 'quick'
    out = []
    for i in range(4 if q else 12): out.append(('agree', dict(tier=tier, chunk=[i, 4 if q else 12])))
    for i in range(3 if q else 8): out.append(('agree_net', dict(tier=tier, chunk=[i, 3 if q else 8])))
    for n in FUNCS: out.append(('torchify', dict(name=n, length=(4 if len(FUNCS[n][0]) <= 2 else 3) + (0 if q else 1) + (n in DEEP[:1 if q else 4]))))
    for n in list(FUNCS) + list(CAPTURED): out.append(('alias', dict(name=n, length=3 if q else 5)))
    return out


# ------------------------------------------------------------------ (a) frameworks
def pinned():
    """random selections as a function of the request only, so that every framework gets the same whatever order it asks in"""
    return seams.PinRandom(choice=pin_choice(np.random.choice), binomial=pin_binomial(np.random.binomial))


def pin_choice(orig):
    def f(a, size=None, replace=True, p=None):
        if size is None or p is not None or not isinstance(a, (int, np.integer)) or not isinstance(size, (int, np.integer)) or not replace: return orig(a, size, replace, p)
        return (np.arange(int(size)) * 3 + 1) % int(a)
    return f


def pin_binomial(orig):
    def f(n, p, size=None):
        if size is None or not isinstance(size, (int, np.integer)): return orig(n, p, size)
        return np.arange(int(size)) % (int(n) + 1)
    return f


PAIRS = [(V, V), (('+', V, S), ('*', V, T1)), (('+', ('n*', 2, S), ('*', V, T1)), ('+', T1, ('n*', 2, V))), (('n*', 3, V), ('+', ('n*', 2, V), S)), (('*', V, V), ('+', S, T1)), (S, V), (V, ('*', ('+', V, S), V))]


def agree(ctx, tier, chunk):
    gs = ['SL(2)', 'S(3)', 'O(3)'] if tier == 'quick' else ['SL(2)', 'S(3)', 'SO(2)', 'O(3)', 'SO11p()', 'Z(3)', 'Trivial(2)', 'Scaling(2)', 'DkeR3(3)', 'Sp(1)', 'S(2)', 'D(3)', 'O13()']
    cases = [(g, k, i) for g in gs for k in ('Linear', 'BiLinear', 'EMLPBlock') for i in range(len(PAIRS))]
    for gname, kind, pi in cases[chunk[0]::chunk[1]]:
        g = ref.group(gname)
        ei, eo = PAIRS[pi]
        ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
        if ni * no > (100 if tier == 'quick' else 400): continue
        if kind == 'EMLPBlock' and tier == 'quick' and no > 9: continue
        with ctx.scenario(f'{kind} {gname}: {ref.show(ei)} -> {ref.show(eo)}') as s:
            if not s: continue
            G = g.make()
            rin, rout = lib.build(ei, G), lib.build(eo, G)
            compare(ctx, s, lambda m: getattr(m, kind)(rin, rout), ni, no)


def agree_net(ctx, tier, chunk):
    from mc.checks import c17_emlp as E
    cases = []
    for g in ('SL(2)', 'S(3)') if tier == 'quick' else E.GROUPS:
        for io in ('V+S>T2', 'S+2V>2V+S') if tier == 'quick' else E.IO:
            for ch in ('int7', '[mixed]', 'Rep') if tier == 'quick' else ('int7', 'int20', '[ints]', '[mixed]', 'Rep', '[Reps]', 'RepDual', 'Repu'):
                cases.append(('EMLP', g, io, ch, 1 if tier == 'quick' else 2))
        cases += [('MLP', g, 'S+2V>2V+S', 'int7', n) for n in (1, 2, 3)]
    for kind, gname, io, ch, nl in cases[chunk[0]::chunk[1]]:
        g = ref.group(gname)
        with ctx.scenario(f'{kind} {gname}: {io} ch={ch} layers={nl}') as s:
            if not s: continue
            G = g.make()
            ei, eo = E.IO[io]
            with pinned(): rin, rout, c = E.make_args(io, ch, False, g, G)
            compare(ctx, s, lambda m: getattr(m, kind)(rin, rout, G, ch=c, num_layers=nl), ref.size(ei, [g.d]), ref.size(eo, [g.d]), mlp=kind == 'MLP')


def compare(ctx, s, make, ni, no, mlp=False):
    s.step(); ctx.state(s.name)
    X = lib.f32(lib.probe(4, ni, t=1))
    nt = {}
    for fw in nets.FRAMEWORKS:
        with pinned(): nt[fw] = nets.Net(fw, make, ni)
        s.step()
    shapes = {}
    for fw, n in nt.items():
        shapes[fw] = sorted(str(sh[::-1] if mlp and fw == 'torch' else sh) for sh in n.shapes)
        if not s.check(shapes[fw] == shapes['objax'], f'{fw} parameters {shapes[fw]}, objax {shapes["objax"]}'): return
    def generic(n, t):
        if not (mlp and n.fw == 'torch'): return [p * (1 / np.sqrt(p.shape[-1]) if p.ndim > 1 else .7) for p in n.generic(t)]
        old, n.shapes = n.shapes, [sh[::-1] for sh in n.shapes]
        ps = [(p * (1 / np.sqrt(p.shape[-1]) if p.ndim > 1 else .7)).T for p in n.generic(t)]
        n.shapes = old
        return ps
    for t in (0, 2):
        ys = {fw: n.apply(generic(n, t), X) for fw, n in nt.items()}
        for fw in nets.FRAMEWORKS:
            s.close(ys[fw], ys['objax'], f'{fw} output differs from objax', tol=1e-3)
            s.check(ys[fw].shape == (4, no), f'{fw} output of shape {ys[fw].shape}')
            s.step()
    # gradients of the torch version
    import torch, jax, jax.numpy as jnp
    C = lib.f32(lib.probe(4, no, t=5))
    o, tn = nt['objax'], nt['torch']
    gp, gx = jax.jit(jax.grad(lambda ps, x: (o.pure(ps, x) * C).sum(), argnums=(0, 1)))([jnp.asarray(p) for p in generic(o, 2)], jnp.asarray(X))
    gp = sorted([np.asarray(a) for a in gp], key=lambda a: (a.shape, float(np.abs(a).sum())))
    for xr, pr in ((True, True), (False, True), (True, False)):
        for v, p in zip(tn.vars, generic(tn, 2)):
            v.data = torch.from_numpy(np.array(p, np.float32)); v.requires_grad_(pr); v.grad = None
        x = torch.from_numpy(X.copy()).requires_grad_(xr)
        for rep in (1, 2):      # the second pass accumulates
            if not any(v.requires_grad for v in tn.vars) and not xr: continue
            y = tn.obj(x)
            if not s.check(y.requires_grad, 'the torch output lost its gradient'): return
            (y * torch.from_numpy(C)).sum().backward()
            s.step()
            if xr: s.close(x.grad.numpy() / rep, gx, f'torch input gradient (pass {rep})', tol=2e-3)
            else: s.check(x.grad is None, 'gradient for an input that does not require it')
            if pr:
                got = [(v.grad.numpy().T if mlp else v.grad.numpy()) / rep if v.grad is not None else np.zeros([int(k) for k in (v.shape[::-1] if mlp else v.shape)]) for v in tn.vars]
                got = sorted(got, key=lambda a: (a.shape, float(np.abs(a).sum())))
                for a, b in zip(got, gp): s.close(a, b, f'torch parameter gradient of shape {b.shape} (pass {rep})', tol=2e-3)
    ctx.outcome(s.name)
    ctx.sample({'layer': s.name, 'parameter shapes': shapes['objax']})


# ------------------------------------------------------------------ (b) torchify_fn
def mat(k=3): return (np.cos(np.arange(k * k) * 1.3).reshape(k, k)).astype(np.float32)


def _family():
    """name -> (leaf kinds, arguments from leaves, jax function, torch function); written with the module xp = jnp or torch"""
    def f_sin(xp, x): return xp.sin(x) * x
    def f_mm(xp, a, b): return a @ b
    def f_dict(xp, d): return xp.sin(d['a']) * d['b'][0]
    def f_two(xp, x, y): return x * y, x + y * y
    def f_nest(xp, x, l): return {'s': x * l[0], 't': [l[1]['z'] * l[1]['z'], x + l[1]['z']]}
    def f_list(xp, l): return [l[0] * l[1], l[0]]
    def f_index(xp, x, i): return x[i] * x[i]
    def f_const(xp, x, c): return x * c + c
    def f_bool(xp, x, y): return (x * y).sum(), x > y
    def f_none(xp, x, n): return xp.cos(x) if n is None else x
    def f_id(xp, x, y): return x, y * 2
    def f_scalar(xp, a, b): return a * b * b
    def f_shared(xp, x, y): return x * xp.exp(y)
    def f_batch(xp, x): return xp.tanh(x).sum(-1)
    def f_cplx(xp, x, z): return x * z * z + z, xp.abs(z)**2 * x
    def f_three(xp, x, y, z): return x * y * z
    def f_ints(xp, x, i): return x * 2, i + 1
    I = lambda *l: l
    return {
        'sin': (['f3'], I, f_sin), 'matmul': (['f23', 'f32'], I, f_mm), 'dict': (['f3', 'f3'], lambda a, b: ({'a': a, 'b': (b,)},), f_dict),
        'two outputs': (['f3', 'f3'], I, f_two), 'nested': (['f3', 'f3', 'f3'], lambda x, y, z: (x, [y, {'z': z}]), f_nest), 'list': (['f3', 'f3'], lambda a, b: ([a, b],), f_list),
        'index': (['f3', 'i'], I, f_index), 'python number': (['f3'], lambda x: (x, 2.5), f_const), 'bool output': (['f3', 'f3'], I, f_bool), 'None': (['f3'], lambda x: (x, None), f_none),
        'identity': (['f3', 'f3'], I, f_id), 'scalars': (['f', 'f'], I, f_scalar), 'shared': (['f3'], lambda x: (x, x), f_shared), 'non-leaf': (['f3', 'f3'], lambda x, y: (x * 2 + y, y.exp()), f_shared),
        'batch': (['f23'], I, f_batch), 'complex': (['f3', 'c3'], I, f_cplx), 'three': (['f3', 'f3', 'f3'], I, f_three), 'int output': (['f3', 'i'], I, f_ints),
        'view': (['f23'], lambda x: (x.t(),), lambda xp, x: x @ x.T), 'double': (['d3', 'f3'], I, lambda xp, x, y: (x * y).sum() if xp.__name__ != 'torch' else (x.float() * y).sum()),
        'matrix P': (['f4'], I, None), 'basis Q': (['f1'], I, None), 'matrix P of columns': (['f42'], I, None),
    }


FUNCS = _family()
DEEP = ('matrix P', 'list', 'two outputs', 'complex')
OPS = ('F', 'F2', 'Bold', 'Bnew', 'Ball', 'Bpart', 'Z', 'N')


def leaf(kind, i, torch):
    sh = tuple(int(c) for c in kind[1:])
    if kind[0] == 'i': return torch.tensor([2, 0, 2])
    n = int(np.prod(sh)) if sh else 1
    v = (np.cos(np.arange(n) * 1.1 + i) + .2).reshape(sh)
    if kind[0] == 'c': return torch.from_numpy(np.asarray(v + 1j * np.sin(np.arange(n) + .3 * i).reshape(sh), np.complex64))
    return torch.from_numpy(np.asarray(v, np.float64 if kind[0] == 'd' else np.float32))


def functions(name):
    import jax.numpy as jnp, torch
    f = FUNCS[name][2]
    if f is not None: return (lambda *a: f(jnp, *a)), (lambda *a: f(torch, *a))
    import emlp.reps as R
    G = ref.group('SO(2)').make()
    rep = R.V(G)**2
    op = rep.equivariant_projector() if name.startswith('matrix') else R.V(ref.group('S(2)').make()).equivariant_basis()
    M = torch.from_numpy(np.asarray(lib.dense(op), np.float32))
    return (lambda v: op @ v), (lambda v: M @ v)


def torchify(ctx, name, length):
    import torch, jax
    from emlp.nn.pytorch import torchify_fn
    kinds, args, _ = FUNCS[name]
    jf, tf = functions(name)
    wrapped = torchify_fn(jf)
    n = len(kinds)
    subsets = [r for r in itertools.product((True, False), repeat=n) if not any(b and k == 'i' for b, k in zip(r, kinds))]
    for sub in subsets:
        full = all(b or k == 'i' for b, k in zip(sub, kinds))
        L = length if full else max(2, length - 1)
        for seq in itertools.product(OPS, repeat=L - 1):
            seq = ('F',) + seq
            # drop sequences with no-ops at the start (nothing to reset)
            if seq[1:2] == ('Z',): continue
            with ctx.scenario(f'{name} grad={"".join("01"[b] for b in sub)}: ' + ' '.join(seq)) as s:
                if not s: continue
                run(ctx, s, torch, wrapped, tf, kinds, args, sub, seq)
    # jitted function, and the wrapped function called on other shapes in between
    with ctx.scenario(f'{name}: under jit') as s:
        if s: run(ctx, s, torch, torchify_fn(jax.jit(jf)), tf, [k for k in kinds], args, tuple(k != 'i' for k in kinds), ('F', 'F2', 'Bold', 'Bnew', 'Ball'))


# ------------------------------------------------------------------ (c) no hidden sharing of memory
CAPTURED = {
    'captured jnp': (['f3'], lambda c: lambda xp, x: (x * 2, c), 'jnp'),
    'captured numpy': (['f3'], lambda c: lambda xp, x: (x * 2, c), 'np'),
    'captured sum': (['f3'], lambda c: lambda xp, x: {'y': x + c, 'c': c}, 'jnp'),
    'captured twice': (['f3'], lambda c: lambda xp, x: [c, x, c * 2], 'jnp'),
}


def alias(ctx, name, length):
    """in-place changes of outputs, inputs and gradients must not reach any other tensor, nor later calls"""
    import torch, jax
    import jax.numpy as jnp
    from emlp.nn.pytorch import torchify_fn
    for jit in (False, True):
        for grad in (True, False):
            for seq in itertools.product('FMXBGO', repeat=length - 1):
                if not grad and set(seq) & set('BGO'): continue
                with ctx.scenario(f'{name}{" jit" if jit else ""} grad={int(grad)} in-place: F {" ".join(seq)}') as s:
                    if not s: continue
                    if name in CAPTURED:
                        kinds, mk, how = CAPTURED[name]
                        args = lambda *l: l
                        c0 = np.cos(np.arange(3)).astype(np.float32)
                        f0, f1 = mk(jnp.asarray(c0) if how == 'jnp' else c0.copy()), mk(torch.from_numpy(c0.copy()))
                        jf, tf = (lambda *a: f0(jnp, *a)), (lambda *a: f1(torch, *a))
                    else:
                        kinds, args, _ = FUNCS[name]
                        jf, tf = functions(name)
                    if jit: jf = jax.jit(jf)
                    sub = tuple(grad and k != 'i' for k in kinds)
                    own = lambda *a: jax.tree_util.tree_map(lambda l: l.clone(), tf(*jax.tree_util.tree_map(lambda l: l.clone() if isinstance(l, torch.Tensor) else l, a)))
                    in_place(ctx, s, torch, torchify_fn(jf), own, kinds, args, sub, ('F',) + seq)


def in_place(ctx, s, torch, f, tf, kinds, args, sub, seq):
    worlds = []
    for fn in (f, tf):
        L = [leaf(k, i, torch).clone() for i, k in enumerate(kinds)]
        for l, b in zip(L, sub):
            if b: l.requires_grad_()
        worlds.append(dict(fn=fn, L=L, calls=[]))
    for step, op in enumerate(seq):
        s.step()
        for w in worlds:
            if op == 'F': w['calls'].append(leaves_of(w['fn'](*args(*w['L']))))
            elif op == 'B':     # a forward pass and its backward pass at once
                y = leaves_of(w['fn'](*args(*w['L'])))
                tot = sum(c for c in (cot(torch, l, j) for j, l in enumerate(y)) if c is not None and c.requires_grad)
                if not isinstance(tot, int): tot.backward()
                w['calls'].append(y)
            elif op == 'O':     # backward through the oldest call, at the values it was made with
                tot = sum(c for c in ((l * torch.cos(torch.arange(l.numel()).reshape(l.shape) * 1. + j)).sum() for j, l in enumerate(w['calls'][0])
                                      if l.requires_grad and l.is_floating_point()))
                if not isinstance(tot, int): tot.backward(retain_graph=True)
            else:
                with torch.no_grad():
                    ts = w['calls'][-1] if op == 'M' else w['L'] if op == 'X' else [l.grad for l in w['L'] if l.grad is not None]
                    for t in ts:
                        if t.is_floating_point() or t.is_complex(): t.mul_(2.).add_(1.)
        a, b = worlds
        for j, (u, v) in enumerate(zip(a['calls'], b['calls'])):
            for i, (x, y) in enumerate(zip(u, v)):
                if not s.close(num(x), num(y), f'output {i} of call {j} after operation {step} ({op})'): return
        for i, (u, v) in enumerate(zip(a['L'], b['L'])):
            if not s.close(num(u), num(v), f'tensor {i} after operation {step} ({op})'): return
            if not s.check((u.grad is None) == (v.grad is None) or 0 == float((u.grad if v.grad is None else v.grad).abs().max()), f'.grad of tensor {i} after operation {step}'): return
            if u.grad is not None and v.grad is not None and not s.close(num(u.grad), num(v.grad), f'.grad of tensor {i} after operation {step} ({op})'): return
    ctx.state(s.name)


def num(t):
    a = t.detach().resolve_conj().numpy()
    return a.astype(float) if a.dtype == bool else a


def leaves_of(y):
    import jax
    return jax.tree_util.tree_leaves(y)


def run(ctx, s, torch, f, tf, kinds, args, sub, seq):
    import jax
    worlds = []
    for fn in (f, tf):
        L = [leaf(k, i, torch) for i, k in enumerate(kinds)]
        for l, b in zip(L, sub):
            if b: l.requires_grad_()
        worlds.append(dict(fn=fn, L=L, calls=[], make=args))
    for step, op in enumerate(seq):
        s.step()
        res = []
        for w in worlds: res.append(perform(torch, w, op, sub))
        a, b = res
        if a is not None and b is not None:
            if not s.check(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), f'output structure {jax.tree_util.tree_structure(a)}'): return
            for i, (u, v) in enumerate(zip(leaves_of(a), leaves_of(b))):
                s.check(isinstance(u, torch.Tensor), f'output {i} is {type(u)}')
                if not s.close(num(u), num(v), f'output {i} of operation {step} ({op})'): return
                if op != 'N': s.check(u.requires_grad == v.requires_grad or not v.requires_grad, f'output {i} requires_grad={u.requires_grad}, expected {v.requires_grad}')
        for i, (u, v) in enumerate(zip(worlds[0]['L'], worlds[1]['L'])):
            gu = np.zeros(u.shape) if u.grad is None else u.grad.resolve_conj().numpy()
            gv = np.zeros(v.shape) if v.grad is None else v.grad.resolve_conj().numpy()
            if not s.close(gu, gv, f'.grad of tensor {i} after operation {step} ({op})'): return
        if s.failed: return
    ctx.state(s.name)
    ctx.outcome(s.name.split(':')[0], [None if l.grad is None else np.round(l.grad.resolve_conj().numpy().astype(complex), 2).tolist() for l in worlds[1]['L']])
    ctx.sample({'history': s.name})


def cot(torch, y, i):
    """a fixed real number depending on the whole output"""
    if y.dtype == torch.bool or not (y.is_floating_point() or y.is_complex()): return None
    c = torch.cos(torch.arange(y.numel()).reshape(y.shape) * 1.0 + i)
    if y.is_complex(): return (y.real * c).sum() + (y.imag * (c + 1)).sum() + (y.abs()**2).sum() * .3
    return (y * c).sum() + (y * y).sum() * .25


def perform(torch, w, op, sub):
    import jax
    if op in ('F', 'F2', 'N'):
        L = w['L']
        scale = {'F': 1., 'F2': 1.5, 'N': 1.}[op]
        make = w['make']
        ins = [l if not (l.is_floating_point() or l.is_complex()) or op == 'F' else l * scale for l in L]
        if op == 'N':
            with torch.no_grad(): return w['fn'](*make(*ins))
        y = w['fn'](*make(*ins))
        w['calls'].append(y)
        return y
    if op == 'Z':
        for l in w['L']: l.grad = None
        return None
    if not any(sub): return None
    calls = w['calls']
    ys = {'Bold': calls[:1], 'Bnew': calls[-1:], 'Ball': calls, 'Bpart': calls[-1:]}[op]
    tot = 0
    for i, y in enumerate(ys):
        ls = [l for l in leaves_of(y)]
        if op == 'Bpart': ls = ls[-1:] if cot(torch, ls[-1], 0) is not None else ls[:1]
        for j, l in enumerate(ls):
            c = cot(torch, l, i + 2 * j)
            if c is not None and c.requires_grad: tot = tot + c
    if isinstance(tot, int): return None
    tot.backward(retain_graph=True)
    return None
