"""C21: equivariance survives training histories, standardisation and augmentation."""
import itertools
import numpy as np
from mc import ref, lib, seams, nets
from mc.common import Skip

RULE = ('Histories: every sequence of operations up to the depth bound over the alphabet (gradient step, jitted optimiser step, overwrite, forward with each batch shape, '
        'train/eval switch, state reload, copy) is executed on a living model; in every state reached the model must commute with the group and equal a freshly '
        'built model holding the same parameters. Standardisation: every form of the statistics x model stub (a non-equivariant recording function) x batch shape x flag, and '
        'the statistics of every bundled dataset around equivariant networks. Augmentation: every assignment of drawn elements (from a list per group) to the items of batches up to size 3.')
ASSUMPTIONS = ['parameters are generic values reached by the enumerated updates (the layer checks decide all parameter values)']
BUDGET = {'quick': 400, 'thorough': 2400}
V, S = ('V', 0), ('1',)

MODELS = {
    'EMLP': (('+', S, ('n*', 2, V)), ('+', V, S)),
    'Linear': (('+', S, V), ('+', V, S, S)),
    'BiLinear': (('+', V, ('n*', 4, S), V), ('+', V, S, V)),
    'EMLPBlock': (('+', V, S), ('+', V, ('n*', 2, S))),
    'EMLPode': (('+', S, V), ('+', S, V)),
    'EMLPH': (('+', S, V), S),
    'EMLPr': (V, ('*', V, V)),
}


def plan(tier):
    out = []
    gs = ['SL(2)', 'S(3)'] if tier == 'quick' else ['SL(2)', 'S(3)', 'SO(2)', 'O(3)', 'SO11p()', 'DkeR3(3)', 'Z(3)']
    for i, g in enumerate(gs):
        for m in MODELS:
            for fw in nets.FRAMEWORKS:
                if m in ('EMLPode', 'EMLPH') and fw != 'objax': continue
                if fw == 'haiku' and m == 'EMLPblock': continue
                if tier == 'quick' and i == 1 and (m in ('BiLinear', 'EMLPode', 'EMLPr') or fw in ('flax', 'haiku')): continue
                if tier == 'quick' and fw in ('flax', 'haiku') and m in ('EMLPr', 'Linear'): continue
                out.append(('history', dict(fw=fw, gname=g, model=m, depth=3 if tier == 'quick' else 4, tier=tier)))
    out.sort(key=lambda t: (t[1]['model'] not in ('EMLP', 'EMLPH', 'EMLPode'), t[1]['fw'] != 'objax'))
    out += [('standardize', dict(fw=fw, tier=tier)) for fw in ('objax', 'torch')]
    out += [('datasets_std', dict(fw=fw, which=w, tier=tier)) for fw in ('objax', 'torch') for w in ('Inertia', 'O5Synthetic', 'ParticleInteraction', 'cubes')]
    out += [('augment', dict(part=i, parts=4, tier=tier)) for i in range(4)]
    return out


# ------------------------------------------------------------------ histories
def maker(model, g, fw):
    import emlp.reps as R
    G = g.make()
    ei, eo = MODELS[model]
    v = R.V
    if model in ('EMLP', 'EMLPode', 'EMLPH', 'EMLPr'):
        rin, rout = ref.build(ei, [v]), ref.build(eo, [v])
        return lambda m: getattr(m, 'EMLP' if model == 'EMLPr' else model)(rin, rout, G, ch=2 * v + 3 * R.Scalar, num_layers=1 if model != 'EMLPr' else 2)
    vi = v(G)
    rin, rout = ref.build(ei, [vi]), ref.build(eo, [vi])
    return lambda m: getattr(m, model)(rin, rout)


class Living:
    """a model object that lives through operations"""

    def __init__(self, fw, make, nin, call):
        self.fw, self.call, self.nin = fw, call, nin
        self.net = nets.Net(fw, make, nin, call=call)
        self.obj = self.net.obj
        self.X = lib.probe(3, nin, t=5).astype(np.float32)
        self._jit = {}
        if fw == 'objax':
            import objax
            self.objax = objax
            vs = self.obj.vars()
            loss = lambda x: (self.call(self.obj, x)**2).mean()
            self.gv = objax.Jit(objax.GradValues(loss, vs), vs)
            self.opt = objax.optimizer.SGD(vs)
            adam = objax.optimizer.Adam(vs)

            def train_op(x):
                g, l = objax.GradValues(loss, vs)(x)
                adam(.03, g)
                return l
            self.train_op = objax.Jit(train_op, vs + adam.vars())
            self.jfwd = objax.Jit(lambda x: self.call(self.obj, x), vs)
        elif fw == 'torch':
            import torch
            self.torch = torch
        else:
            import jax
            self.ps = self.net.init
            self.grad = jax.jit(jax.grad(lambda ps, x: (self.net.pure(ps, x)**2).mean()))

    def get(self):
        if self.fw == 'objax': return [np.array(v.value) for v in self.net.vars]
        if self.fw == 'torch': return [p.detach().numpy().copy() for p in self.obj.parameters()]
        return [np.array(p) for p in self.ps]

    def put(self, ps):
        if self.fw == 'objax':
            for v, p in zip(self.net.vars, ps): v.assign(__import__('jax').numpy.asarray(p))
        elif self.fw == 'torch':
            for v, p in zip(self.obj.parameters(), ps): v.data = self.torch.from_numpy(np.array(p, np.float32))
        else: self.ps = [np.array(p) for p in ps]

    def forward(self, x, jit=False):
        if self.fw == 'objax': return np.asarray((self.jfwd if jit else lambda y: self.call(self.obj, y))(np.asarray(x, np.float32)))
        if self.fw == 'torch':
            with self.torch.no_grad():
                return self.call(self.obj, self.torch.from_numpy(np.array(x, np.float32))).numpy()
        return self.net.apply(self.ps, np.asarray(x, np.float32), jit=jit)

    def update(self, g, lr):
        return [p - lr * np.asarray(d) for p, d in zip(self.get(), g)]

    def op(self, name):
        """perform one operation; returns the output it must have (or None)"""
        t = self.fw
        if name == 'sgd':
            if t == 'objax':
                g, _ = self.gv(self.X)
                self.opt(.05, g)
            elif t == 'torch':
                o = self.torch.optim.SGD(self.obj.parameters(), lr=.05)
                o.zero_grad()
                (self.call(self.obj, self.torch.from_numpy(self.X))**2).mean().backward()
                o.step()
            else: self.ps = self.update(self.grad(self.ps, self.X), .05)
        elif name == 'adam':
            if t == 'objax': self.train_op(self.X)
            elif t == 'torch':
                o = self.torch.optim.Adam(self.obj.parameters(), lr=.03, weight_decay=.1)
                o.zero_grad()
                (self.call(self.obj, self.torch.from_numpy(self.X[0]))**2).mean().backward()
                o.step()
            else:
                g = self.grad(self.ps, self.X)
                self.ps = self.update([np.sign(d) for d in g], .03)
        elif name.startswith('set'):
            self.put(scaled(self.net, int(name[3:])))
        elif name == 'single': self.forward(self.X[0])
        elif name == 'batch': self.forward(lib.probe(4, self.nin, t=2).reshape(2, 2, self.nin))
        elif name == 'jit': self.forward(self.X[:2], jit=True)
        elif name == 'reload':
            if t == 'torch':
                sd = {k: v.clone() for k, v in self.obj.state_dict().items()}
                self.put(scaled(self.net, 7))
                self.obj.load_state_dict(sd)
            else:
                ps = self.get()
                self.put(scaled(self.net, 7)); self.forward(self.X[:1]); self.put(ps)
        elif name == 'mode':
            if t == 'torch':
                self.obj.eval() if self.obj.training else self.obj.train()
            elif t == 'objax':
                try: self.obj(self.X[:1], training=False)
                except TypeError: self.forward(self.X[:1])
        elif name == 'copy':
            import copy
            old = self.obj
            self.obj = copy.deepcopy(old)
            with self.torch.no_grad():
                for p in old.parameters(): p.fill_(3.)


OPS = {'objax': ['sgd', 'adam', 'set1', 'single', 'jit', 'batch'], 'torch': ['sgd', 'adam', 'set1', 'mode', 'reload', 'copy', 'batch'],
       'flax': ['sgd', 'adam', 'set1', 'batch', 'single'], 'haiku': ['sgd', 'adam', 'set1', 'batch', 'single']}


def scaled(net, t):
    return [p * (1. / np.sqrt(p.shape[-1]) if p.ndim > 1 else .7) for p in net.generic(t)]


def history(ctx, fw, gname, model, depth, tier):
    g = ref.group(gname)
    ei, eo = MODELS[model]
    ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
    call = {'EMLPode': lambda f, x: f(x, 0.)}.get(model)
    call = call or (lambda f, x: f(x))
    hs = lib.gen_tuples([g])
    ops = OPS[fw]
    X = lib.probe(2, ni, t=1)
    rows = np.concatenate([X] + [X @ np.real(ref.rho(ei, h)).T for h in hs]).astype(np.float32)

    def rho_out(h): return np.real(ref.rho(eo, h))
    twin = []

    def judge(s, m, path):
        """the state reached is equivariant and equals a fresh model with the same parameters"""
        ps = m.get()
        if not s.check(all(np.isfinite(p).all() for p in ps), f'{path}: parameters are not finite'): return False
        ctx.state(fw, gname, model, *[p.round(5).tobytes() for p in ps], getattr(m.obj, 'training', None))
        if not twin:
            twin.append(nets.Net(fw, maker(model, g, fw), ni, call=call))
        if model == 'EMLPH':
            # a single number summed over the batch
            want = [twin[0].apply(ps, r[None], jit=True) for r in rows[:2]]
            got = m.forward(rows[:2])
            ok = s.close(got, np.sum(want), f'{path}: differs from a fresh model with the same parameters', 2e-2)
            for i, h in enumerate(hs):
                ok = ok and s.close(m.forward(rows[2 + 2 * i:4 + 2 * i], jit=True), got, f'{path}: not invariant under {h_name(h)}')
            s.step(len(hs))
            return ok
        y = m.forward(rows)
        n_out = y.shape[-1]
        ok = s.close(y, twin[0].apply(ps, rows), f'{path}: differs from a fresh model with the same parameters', 2e-2)
        if not ok: return False
        for i, h in enumerate(hs):
            s.step()
            R = rho_out(h)
            if R.shape[0] != n_out: s.fail(f'{path}: output size {n_out} instead of {R.shape[0]}'); return False
            if not s.close(y[2 + 2 * i:4 + 2 * i], y[:2] @ R.T, f'{path}: not equivariant', scale_of=model): return False
        ctx.outcome(fw, gname, model, y.round(3).tobytes())
        return True

    def h_name(h): return 'a group element'
    for first in ops:
        with ctx.scenario(f'{fw} {model} {gname} histories starting with {first}') as s:
            if not s: continue
            m = Living(fw, maker(model, g, fw), ni, call)
            m.put(scaled(m.net, 0))
            if first == ops[0] and not judge(s, m, 'initially'): continue

            def walk(path, d):
                m.op(path[-1])
                ctx.count('histories')
                if not judge(s, m, ' > '.join(path)): return False
                if d == 0: return True
                here = m.get()
                for o in ops:
                    if not walk(path + [o], d - 1): return False
                    m.put(here)
                return True
            walk([first], depth - 1)


# ------------------------------------------------------------------ standardisation
def stub_fn(X, xp):
    """a non-equivariant nonlinear function (rows independent), 5 -> 3"""
    A = np.array([[.3, -1.2, .7, .1, .9], [1.1, .4, -.2, .8, -.5], [-.6, .9, 1.3, -.3, .2]], np.float32)
    return xp(A, X)


def stats_forms(nin, nout):
    mi, si = np.linspace(-1, 2, nin), np.linspace(.5, 3, nin)
    mo, so = np.linspace(2, -1, nout), np.linspace(2, .25, nout)
    f = lambda *a: tuple(np.asarray(x, np.float32) for x in a)
    return {
        '2 scalars': (0, 1), '2 floats': (.5, 2.), '2 arrays': (mi, si), '2 mixed': (0, si), '2 f32': f(mi, si), '2 list': [mi, si], '2 rows': (mi[None], si[None]),
        '4 scalars': (0, 1, 0, 1), '4 floats': (.5, 2., -1., 3.), '4 arrays': (mi, si, mo, so), '4 mixed': (0, si, mo, so), '4 mixed2': (mi, 1, 0, so), '4 mixed3': (mi, si, mo[:1], so[:1]),
        '4 f32': f(mi, si, mo, so), '4 list': [mi, si, mo, so], '4 negative': (mi, -si, mo, -so), '4 rows': (mi[None], si[None], mo[None], so[None]), '4 out only': (0, 1, mo, so),
        '4 zero output scale': (mi, si, mo, 0 * so),
    }


def standardize(ctx, fw, tier):
    m = nets.module(fw)
    nin, nout = 5, 3
    A = np.array([[.3, -1.2, .7, .1, .9], [1.1, .4, -.2, .8, -.5], [-.6, .9, 1.3, -.3, .2]], np.float32)
    seen = []

    def f(x): return np.tanh(x @ A.T) + (x[..., :3]**2)
    if fw == 'objax':
        import objax, jax.numpy as jnp

        class Stub(objax.Module):
            def __call__(self, x, training=None):
                seen.append((np.asarray(x), training))
                return jnp.tanh(x @ A.T) + x[..., :3]**2
        conv = [('numpy32', lambda x: x.astype(np.float32)), ('jax', lambda x: jnp.asarray(x, jnp.float32))]
    else:
        import torch

        class Stub(torch.nn.Module):
            def forward(self, x, training=None):
                seen.append((x.detach().numpy(), training))
                return torch.tanh(x @ torch.tensor(A, dtype=x.dtype).T) + x[..., :3]**2
        conv = [('float32', lambda x: torch.tensor(x, dtype=torch.float32)), ('float64', lambda x: torch.tensor(x, dtype=torch.float64))]
    for (fn, st), shape, (cn, cv), training in itertools.product(stats_forms(nin, nout).items(), ((nin,), (1, nin), (4, nin), (2, 3, nin)), conv, (True, False)):
        if 'rows' in fn and len(shape) == 1: continue
        with ctx.scenario(f'{fw} Standardize stats={fn} shape={shape} input={cn} training={training}') as s:
            if not s: continue
            s.step()
            ctx.state(s.name)
            x = lib.probe(int(np.prod(shape[:-1])), nin, t=3).reshape(shape)
            w = m.Standardize(Stub(), st)
            st4 = [np.asarray(a, float) for a in st] + ([0, 1] if len(st) == 2 else [])
            want_in = (x - st4[0]) / st4[1]
            for kw in (0, 1):
                seen.clear()
                xi = cv(x)
                y = w(xi, training=training) if kw else w(xi, training)
                s.check(len(seen) == 1, f'the model was called {len(seen)} times')
                s.close(seen[0][0], want_in, 'input of the model is not (x-mean)/scale', 1e-4)
                s.check(seen[0][1] is not None and bool(seen[0][1]) == training, f'training={training} arrives as {seen[0][1]}')
                s.close(np.asarray(y.detach() if fw == 'torch' else y), st4[3] * f(want_in) + st4[2], 'output is not scale*model+mean', 1e-4)
                s.close(np.asarray(xi), x, 'the input was modified', 1e-6)
            if fw == 'torch' and training:
                xi = cv(x).requires_grad_(True)
                w(xi, True).sum().backward()
                e = 1e-3
                num = np.zeros_like(x)
                tot = lambda z: ((st4[3] * f((z - st4[0]) / st4[1]) + st4[2])).sum()
                for i in np.ndindex(*x.shape):
                    d = np.zeros_like(x); d[i] = e
                    num[i] = (tot(x + d) - tot(x - d)) / (2 * e)
                s.close(xi.grad.numpy(), num, 'gradient through the standardisation', 1e-2)
            ctx.outcome(fn, fw, np.asarray(y.detach() if fw == 'torch' else y).round(3).tobytes())


def datasets_std(ctx, fw, which, tier):
    from emlp import datasets as dd
    import emlp.reps as R
    from mc.checks.c20_datasets import elements, rho
    m = nets.module(fw)
    cases = []
    if which == 'cubes':
        cases = [(dd.InvertedCube, ()), (dd.BrokenRubiksCube, ())] if tier != 'quick' else [(dd.InvertedCube, ())]
    elif which == 'Inertia': cases = [(dd.Inertia, (20, k)) for k in ((2,) if tier == 'quick' else (1, 2, 3, 5))]
    else: cases = [(getattr(dd, which), (20,))]
    for cls, a in cases:
        for form in ('own', 'first two'):
            with ctx.scenario(f'{fw} {cls.__name__}{a} network standardised with {form} statistics') as s:
                if not s: continue
                ds = cls(*a)
                G = ds.symmetry
                st = ds.stats if form == 'own' else ds.stats[:2]
                ch = R.V + 3 * R.Scalar
                base = m.EMLP(ds.rep_in, ds.rep_out, G, ch=ch, num_layers=1)
                w = m.Standardize(base, st)
                Vi, Vo = ds.rep_in(G), ds.rep_out(G)
                X = np.asarray(ds.X[:2], np.float32)
                els = elements(G)
                if len(els) > 8: els = els[::max(1, len(els) // 8)]
                rows = np.concatenate([X] + [X @ rho(Vi, g).T for _, g in els]).astype(np.float32)
                n0 = params(base, fw)
                s.check(len(params(w, fw)) == len(n0) and len(n0) > 0, 'the wrapper does not expose the parameters of the model')
                for t in range(2):
                    for v in params(w, fw): assign(v, fw, t)
                    ev = (lambda x: np.asarray(w(x, training=True))) if fw == 'objax' else (lambda x: run_torch(w, x))
                    y = ev(rows)
                    ev0 = (lambda x: np.asarray(base(x))) if fw == 'objax' else (lambda x: run_torch(base, x, False))
                    st4 = list(st) + ([0, 1] if len(st) == 2 else [])
                    want = np.asarray(st4[3]) * ev0(((rows - np.asarray(st4[0])) / np.asarray(st4[1])).astype(np.float32)) + np.asarray(st4[2])
                    s.close(y, want, 'not the affine normalisation of the model')
                    for i, (gn, g) in enumerate(els):
                        s.step()
                        ctx.state(cls.__name__, form, gn, t)
                        s.close(y[2 + 2 * i:4 + 2 * i], y[:2] @ rho(Vo, g).T, f'standardised model does not commute with {gn}', 5e-3)
                if fw == 'objax' and hasattr(ds, 'default_aug'):
                    aug = ds.default_aug(base)
                    for nm, wrapped in (('Standardize(aug)', m.Standardize(aug, st)), ('aug(Standardize)', ds.default_aug(w))):
                        s.check(len(params(wrapped, fw)) == len(n0), f'{nm} does not expose the parameters of the model')
                        for tr in (True, False):
                            els_ = [g for _, g in els if np.abs(g).max() < 3][:4] or [np.eye(G.d)]
                            with Draw(els_) as d:
                                yy = np.asarray(wrapped(X, tr))
                            s.step()
                            s.close(yy, y[:2], f'{nm} of an equivariant model changed the prediction (training={tr})', 5e-3)


def params(obj, fw):
    if fw == 'torch': return list(obj.parameters())
    seen = []
    for v in obj.vars().values():
        if not any(v is w for w in seen): seen.append(v)
    return seen


def assign(v, fw, t):
    sh = tuple(v.shape) if fw == 'torch' else tuple(v.value.shape)
    n = int(np.prod(sh)) if sh else 1
    i = np.arange(1, n + 1)
    a = (np.cos(1.7 * i + .9 * t + .31 * len(sh)) * (1 / np.sqrt(sh[-1]) if len(sh) > 1 else .7)).reshape(sh).astype(np.float32)
    if fw == 'torch':
        import torch
        v.data = torch.from_numpy(a)
    else:
        import jax.numpy as jnp
        v.assign(jnp.asarray(a))


def run_torch(w, x, flag=True):
    import torch
    with torch.no_grad():
        x = torch.from_numpy(np.array(x, np.float32))
        return (w(x, training=True) if flag else w(x)).numpy()


# ------------------------------------------------------------------ augmentation
class Draw:
    """Group.samples answers with the given sequence of elements (whatever the batching of the calls)"""

    def __init__(self, elems): self.elems, self.n = elems, 0

    def __enter__(self):
        import emlp.groups as g
        self.orig = g.Group.samples
        me = self

        def samples(self, N):
            import jax.numpy as jnp
            out = [me.elems[(me.n + i) % len(me.elems)] for i in range(N)]
            me.n += N
            return jnp.asarray(np.stack(out), jnp.float32)
        g.Group.samples = samples
        return self

    def __exit__(self, *a):
        import emlp.groups as g
        g.Group.samples = self.orig


AUG = [('O(3)', ('+', S, V), ('*', V, V)), ('SL(2)', ('+', V, S), ('+', ('*', V, ('V', 0)), S)), ('S(3)', ('n*', 2, V), V), ('SO11p()', ('n*', 2, V), S),
       ('SL(2)', V, ('T', V)), ('O(2)', S, V), ('Sp(1)', V, ('*', V, ('T', V))), ('SO(2)', ('+', V, V), ('+', S, V)), ('GL(2)', ('T', V), ('*', V, V)),
       ('Scaling(2)', V, ('+', V, S)), ('DkeR3(3)', V, V), ('O11()', V, ('+', V, V)), ('Z(3)', V, ('+', S, V))]


def augment(ctx, part, parts, tier):
    import objax, jax.numpy as jnp
    import emlp.reps as R
    from emlp.datasets import GroupAugmentation
    from scipy.linalg import expm
    jobs = []
    for gname, ei, eo in AUG:
        if gname not in ref.table(): continue
        for conc in (False, True):
            for N in (1, 2, 3):
                jobs.append((gname, ei, eo, conc, N))
    for gname, ei, eo, conc, N in jobs[part::parts]:
        g = ref.group(gname)
        with ctx.scenario(f'augmentation {gname} {ref.show(ei)}>{ref.show(eo)} batch={N}' + (' concrete' if conc else '')) as s:
            if not s: continue
            G = g.make()
            I = np.eye(g.d)
            els = [np.asarray(h, float) for h in g.disc[:2]] + [expm(.6 * np.asarray(A, float)) for A in g.lie[:2]] + ([expm(-1.1 * np.asarray(g.lie[-1], float))] if len(g.lie) else []) + [I]
            els = [np.real(e) for e in els][:4]
            v = R.V(G) if conc else R.V
            rin, rout = ref.build(ei, [v]), ref.build(eo, [v])
            if conc and not hasattr(rin, 'concrete'): raise Skip
            ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
            B = (np.arange(ni * no).reshape(no, ni) % 7 - 3) * .3
            calls = []

            class Stub(objax.Module):
                def __init__(self): self.w = objax.TrainVar(jnp.ones(1))

                def __call__(self, x, training):
                    calls.append((np.asarray(x), training))
                    return self.w.value * jnp.tanh(x @ jnp.asarray(B.T, jnp.float32) + .3) + .1 * jnp.arange(no)
            f = lambda x: np.tanh(x @ B.T + .3) + .1 * np.arange(no)
            stub = Stub()
            A = GroupAugmentation(stub, rin, rout, G)
            s.check(len(params(A, 'objax')) == 1, 'the wrapper does not expose the parameters of the model')
            x = lib.probe(N, ni, t=4).astype(np.float32)
            rin_m = [np.real(ref.rho(ei, [e])) for e in els]
            rout_m = [np.real(ref.rho(eo, [e])) for e in els]
            # every assignment of elements to the items of the batch
            for asg in itertools.product(range(len(els)), repeat=N):
                calls.clear()
                with Draw([els[i] for i in asg]) as d:
                    y = np.asarray(A(x, True) if sum(asg) % 2 else A(x))
                s.step()
                ctx.state(gname, ref.show(ei), ref.show(eo), conc, asg)
                s.check(d.n == N, f'{d.n} elements drawn for {N} items')
                if not s.check(len(calls) and all(c[1] is True or c[1] == True for c in calls), 'the model is not told that it is training'): break
                xin = np.concatenate([np.asarray(c[0]).reshape(-1, ni) for c in calls])
                if not s.check(len(xin) == N, f'{len(xin)} rows given to the model'): break
                # each item uses one of the drawn elements, each of them once
                left = sorted(asg)
                ok = True
                for r in range(N):
                    hit = [i for i in left if np.allclose(rin_m[i] @ x[r], xin[r], atol=2e-3 * (1 + np.abs(xin[r]).max()))
                           and np.allclose(np.linalg.solve(rout_m[i], f(xin[r])), y[r], atol=5e-3 * (1 + np.abs(y[r]).max()))]
                    if not hit: ok = False; break
                    left.remove(hit[0])
                if not ok:
                    # (elements that act alike on the item can be matched in another order)
                    ok = any(all(np.allclose(rin_m[i] @ x[r], xin[r], atol=2e-3 * (1 + np.abs(xin[r]).max()))
                                 and np.allclose(np.linalg.solve(rout_m[i], f(xin[r])), y[r], atol=5e-3 * (1 + np.abs(y[r]).max())) for r, i in enumerate(p))
                             for p in itertools.permutations(asg))
                if not s.check(ok, f'item(s) not transformed by their own drawn element, elements {asg}', x=x, model_saw=xin, y=y): break
                ctx.outcome(gname, asg, y.round(3).tobytes())
            # evaluation is untouched and draws nothing
            calls.clear()
            with Draw(els) as d:
                y = np.asarray(A(x, False))
            s.step()
            s.close(y, f(x), 'evaluation differs from the model', 1e-4)
            s.check(d.n == 0, 'evaluation draws group elements')
            s.check(all(not c[1] for c in calls), 'evaluation runs the model in training mode')
            s.close(calls[-1][0], x, 'evaluation transforms the input', 1e-6)
            # real draws: some element of the group explains the batch
            calls.clear()
            y = np.asarray(A(x, True))
            s.check(y.shape == (N, no) and np.isfinite(y).all(), f'shape {y.shape} with real draws')
            if N > 1 and (len(g.lie) and ni > 1) and not np.allclose(rin_m[0], np.eye(ni)):
                pass
