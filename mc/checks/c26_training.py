"""C26: training visits every example once per epoch, and reported metrics are those of the whole dataset."""
import itertools, os
import numpy as np
from mc import hd, lib

RULE = ('Every history up to the stated length over train(0..2) and train_to(current-1..current+2) x dataset sizes x batch sizes x answers of the log timer is run on the real '
        'training loop with a linear model and compared, after every operation, with a float64 simulation of stochastic gradient descent (parameters, order of the batches, '
        'schedule arguments, epoch counter, logged steps). Every dataset size x batch size x loader kind: metrics equal the mean over the examples. Every sequence of metric '
        'values of the stated length: the checkpoint is that of the best log. All small label assignments: losses, gradients, accuracies. All nested minibatch structures to depth 2.')
ASSUMPTIONS = ['stand-ins for the model and the log timer (wall clock); tensorboard output is not examined']
OPERATIONS = ('metric', 'gradient', 'rollout', 'step')
BUDGET = {'quick': 400, 'thorough': 1500}


def plan(tier):
    q = tier == 'quick'
    sizes = [(1, 1), (3, 1), (3, 2), (4, 2), (5, 2), (5, 8)] if q else [(n, b) for n in range(1, 7) for b in (1, 2, 3, 4, 8)]
    k = 6 if q else 15
    out = [('loop', dict(sizes=sizes[i::k], length=3 if q else 4)) for i in range(k)]
    out += [('metrics', dict(part=i, parts=4, tier=tier)) for i in range(4)]
    out += [('earlystop', dict(length=4 if q else 6))]
    out += [('losses', dict(tier=tier)), ('loaders', dict(tier=tier)), ('equivariance', dict(tier=tier)), ]
    slow = [('dynamics', dict(model=m, first=f, tier=tier)) for m in ('hamiltonian', 'ode') for f in OPERATIONS]
    slow += [('plus', dict(group=g, tier=tier)) for g in (('SO(2)', 'S(3)') if q else ('SO(2)', 'S(3)', 'O(3)', 'SL(2)'))]
    return slow + out


def load():
    hd.load()
    import trainer.trainer as tt, trainer.classifier as tc, trainer.model_trainer as tm, trainer.utils as tu
    return tt, tc, tm, tu


class Data:
    """regression data with non-uniform errors"""
    def __init__(self, n, di=2, do=1, seed=0):
        self.X = lib.f32(lib.probe(n, di, t=seed)) if n else np.zeros((0, di), np.float32)
        self.Y = lib.f32(lib.probe(n, do, t=seed + 3) * (1 + np.arange(n))[:, None]) if n else np.zeros((0, do), np.float32)

    def __len__(self): return len(self.X)

    def __getitem__(self, i): return self.X[i], self.Y[i]


def linear(di=2, do=1):
    import objax, jax.numpy as jnp

    class Lin(objax.Module):
        def __init__(self):
            self.w = objax.TrainVar(jnp.asarray(lib.f32(lib.probe(di, do, t=7))))
            self.flags = []

        def __call__(self, x, training=False):
            self.flags.append(training)
            return x @ self.w.value
    m = Lin()
    m.predict = lambda x: x @ m.w.value
    return m


def quiet_logger(d, answers, log):
    from oil.logging.lazyLogger import LazyLogger

    class L(LazyLogger):
        def __enter__(self):
            self.asked = getattr(self, 'asked', -1) + 1
            return bool(answers(self.asked))

        def __exit__(self, *a): pass

        def add_scalars(self, tag, dic, step=None, walltime=None):
            log.append((tag, dict(dic), step))
            super().add_scalars(tag, dic, step, walltime)
    return L(d, no_print=True)


def make_trainer(cls, model, loaders, d, lr=lambda e: .1, answers=lambda k: False, early=None, optim=None):
    import objax
    log = []
    tr = cls(model, loaders, optim or objax.optimizer.SGD, lr, log_dir=d, log_args=dict(minPeriod=1e9, timeFrac=.5, no_print=True), early_stop_metric=early)
    tr.logger = quiet_logger(d, answers, log)
    return tr, log


class Seen:
    """a loader that records which batches were handed out"""
    def __init__(self, loader): self.loader, self.out, self.batch_size, self.dataset = loader, [], getattr(loader, 'batch_size', None), getattr(loader, 'dataset', None)

    def __len__(self): return len(self.loader)

    def __iter__(self):
        for b in self.loader:
            self.out.append(b)
            yield b


# ------------------------------------------------------------------ the loop
OPS = [('train', 0), ('train', 1), ('train', 2), ('to', -1), ('to', 0), ('to', 1), ('to', 2)]
ANSWERS = {'never': lambda k: False, 'always': lambda k: True, 'every other': lambda k: k % 2 == 0}


def loop(ctx, sizes, length):
    from torch.utils.data import DataLoader
    tt, tc, tm, tu = load()
    with hd.home() as d:
        for n, bs in sizes:
            tr_data, te_data = Data(n), Data(3, seed=5)
            for nm, ans in ANSWERS.items():
                L = length if nm == 'never' else length - 1
                for seq in itertools.product(OPS, repeat=L):
                    with ctx.scenario(f'{n} examples in batches of {bs}, log {nm}: ' + ' '.join(f'{a}{b:+d}' for a, b in seq)) as s:
                        if not s: continue
                        model, lrs = linear(), []
                        train = Seen(tu.LoaderTo(DataLoader(tr_data, batch_size=bs)))
                        def lr(e): lrs.append(e); return .05 / (1 + e)
                        tr, log = make_trainer(tc.Regressor, model, {'train': train, 'test': tu.LoaderTo(DataLoader(te_data, batch_size=3))}, d, lr, ans)
                        one_history(ctx, s, tr, log, train, model, lrs, tr_data, te_data, n, bs, seq, ans)


def one_history(ctx, s, tr, log, train, model, lrs, data, te, n, bs, seq, ans):
    w = np.asarray(model.w.value, float)
    X, Y = np.asarray(data.X, float), np.asarray(data.Y, float)
    batches = [np.arange(n)[i:i + bs] for i in range(0, n, bs)]
    spe, epoch, asked = len(batches), 0, 0
    want_lr, want_seen, want_log = [], [], []
    test_mse = lambda w: float(((te.X @ w - te.Y)**2).mean())
    for op, k in seq:
        s.step()
        if op == 'to' and k < 0:
            before = tr.epoch
            try: tr.train_to(epoch + k)
            except AssertionError: pass
            else: s.check(False, 'train_to accepted an epoch that has passed')
            if not s.check(tr.epoch == before == epoch, f'epoch is {tr.epoch} after a refused train_to'): return
            continue
        (tr.train if op == 'train' else tr.train_to)(k if op == 'train' else epoch + k)
        step = None
        for e in range(epoch, epoch + k):
            for i, b in enumerate(batches):
                t = e + i / spe
                want_lr.append(t); want_seen.append(b)
                w = w - .05 / (1 + t) * 2 * X[b].T @ (X[b] @ w - Y[b]) / Y[b].size
                step = i + e * spe
                if ans(asked): want_log.append((step, test_mse(w)))
                asked += 1
        want_log.append((step, test_mse(w)))
        epoch += k
        ctx.state(n, bs, epoch, len(want_log))
        if not s.check(tr.epoch == epoch, f'epoch counter {tr.epoch} after {epoch} epochs'): return
        if not s.close(np.asarray(model.w.value), w, 'parameters after training', tol=1e-4): return
        if not s.check(len(lrs) == len(want_lr) and np.allclose(lrs, want_lr, atol=1e-6), f'schedule called at {lrs[-4:]}, expected {want_lr[-4:]} ({len(lrs)} of {len(want_lr)})'): return
        got = [np.asarray(b[0]) for b in train.out]
        if not s.check(len(got) == len(want_seen) and all(g.shape == X[b].shape and np.abs(g - X[b]).max() < 1e-6 for g, b in zip(got, want_seen)), 'batches seen in training'): return
        m = [(st, d) for tag, d, st in log if tag == 'metrics' and any(q.startswith('test') for q in d)]
        if not s.check(len(m) == len(want_log), f'{len(m)} logs, expected {len(want_log)}'): return
        for (st, d), (ws, wm) in zip(m, want_log):
            if ws is not None and not s.check(st == ws, f'logged at step {st}, expected {ws}'): return
            if not s.check(set(d) == {'test_MSE'}, f'metrics {sorted(d)}'): return
            if not s.close(d['test_MSE'], wm, f'test metric logged at step {st}', tol=1e-3): return
        if not s.check(tr.ckpt is not None and tr.ckpt['epoch'] in (epoch, epoch - 1, max(epoch - 1, 0)), 'checkpoint after training'): return
    s.check(all(f is True for f in model.flags), 'the loss is not evaluated in training mode')
    ctx.outcome(n, bs, epoch, round(test_mse(w), 4))
    ctx.sample({'history': s.name, 'epochs': epoch, 'steps': len(want_lr)})


# ------------------------------------------------------------------ metrics
def metrics(ctx, part, parts, tier):
    from torch.utils.data import DataLoader
    tt, tc, tm, tu = load()
    N, B = (range(1, 10), (1, 2, 3, 4, 5, 8, 16)) if tier == 'quick' else (range(1, 26), range(1, 27))
    cases = [(n, b) for n in N for b in B]
    with hd.home() as d:
        for n, bs in cases[part::parts]:
            data = Data(n, 3, 2)
            for kind in ('loader', 'drop', 'list', 'slice'):
                with ctx.scenario(f'metrics of {n} examples in batches of {bs}, {kind}') as s:
                    if not s: continue
                    ctx.state(n, bs, kind)
                    model = linear(3, 2)
                    base = tu.LoaderTo(DataLoader(data, batch_size=bs, drop_last=(kind == 'drop')))
                    used = np.arange(n - n % bs if kind == 'drop' else n)
                    loader = base if kind in ('loader', 'drop') else list(base) if kind == 'list' else itertools.islice(base, 0, None, 2)
                    if kind == 'slice': used = np.array([i for k in range(0, n, bs) if (k // bs) % 2 == 0 for i in range(k, min(k + bs, n))])
                    tr, log = make_trainer(tc.Regressor, model, {'train': base}, d)
                    s.step()
                    err = (data.X @ np.asarray(model.w.value) - data.Y)**2
                    if not len(used):
                        try: tr.metrics(loader)
                        except KeyError: s.check(True, 'empty')
                        else: s.check(False, 'a metric was reported for no examples')
                        continue
                    got = tr.metrics(loader)
                    s.check(set(got) == {'MSE'}, f'metrics {got}')
                    s.close(got['MSE'], err[used].mean(), 'mean squared error over the examples', tol=1e-4)
                    ctx.outcome(n, bs, kind, round(float(got['MSE']), 3))
                    if kind == 'loader':
                        for fname, f, want in (('sum', lambda mb: np.asarray(mb[1]).sum(1).mean(), data.Y.sum(1).mean()), ('vector', lambda mb: np.asarray(mb[0]).mean(0), data.X.mean(0))):
                            s.close(tr.evalAverageMetrics(tu.LoaderTo(DataLoader(data, batch_size=bs)), f), want, f'average of a metric ({fname})', tol=1e-4)
                        # names and selection of the loaders
                        other = Data(n + 2, 3, 2, seed=2)
                        lo = {'train': base, 'test': base, 'val': tu.LoaderTo(DataLoader(other, batch_size=bs)), '_hidden': base, 'none': tu.LoaderTo(DataLoader(Data(0, 3, 2), batch_size=bs)), 'Train': base}
                        tr, log = make_trainer(tc.Regressor, model, lo, d)
                        tr.logStuff(11)
                        m = [x for t, x, st in log if t == 'metrics' and st == 11]
                        if s.check(len(m) == 1 and set(m[0]) == {'test_MSE', 'val_MSE', 'Train_MSE'}, f'logged {m}'):
                            s.close(m[0]['test_MSE'], err.mean(), 'test metric', tol=1e-4)
                            s.close(m[0]['val_MSE'], ((other.X @ np.asarray(model.w.value) - other.Y)**2).mean(), 'val metric', tol=1e-4)


# ------------------------------------------------------------------ early stopping
def earlystop(ctx, length):
    tt, tc, tm, tu = load()
    with hd.home() as d:
        for metric, sign in (('val_MSE', -1), ('val_Acc', 1), (None, 0), ('val_loss', -1)):
            for L in range(1, length + 1):
                for seq in itertools.product((1., 2., 3.), repeat=L):
                    with ctx.scenario(f'early stopping on {metric}: ' + ' '.join(f'{x:g}' for x in seq)) as s:
                        if not s: continue
                        it = iter(seq)

                        class T(tt.Trainer):
                            def metrics(self, loader): return {(metric or 'val_MSE')[4:]: next(it)}

                            def loss(self, mb): return 0.
                        tr, log = make_trainer(T, linear(), {'train': [0], 'val': [0]}, d, early=metric)
                        best = None
                        for k, x in enumerate(seq):
                            tr.epoch = k
                            tr.logStuff(3 * k)
                            s.step()
                            if best is None or sign == 0 or sign * x >= sign * seq[best]: best = k
                            c = tr.ckpt
                            if not s.check(c is not None and c['epoch'] == best, f'after log {k} the checkpoint is of epoch {None if c is None else c["epoch"]}, best is {best}'): break
                            o = c['outcome']
                            if not s.check(len(o) == 1 and int(o.index[0]) == 3 * best and float(o[metric or 'val_MSE'].iloc[0]) == seq[best], f'outcome of the checkpoint {o.to_dict()}'): break
                        ctx.state(metric, seq)
                        ctx.outcome(metric, seq)


# ------------------------------------------------------------------ losses
def losses(ctx, tier):
    import jax, jax.numpy as jnp, objax
    tt, tc, tm, tu = load()
    K, N = (3, 3) if tier == 'quick' else (4, 4)
    with hd.home() as d:
        for k in range(2, K + 1):
            for n in range(1, N + 1):
                model = linear(2, k)
                tr, _ = make_trainer(tc.Classifier, model, {'train': [0]}, d)
                X = lib.f32(2 * lib.probe(n, 2, t=1))
                Z = X.astype(float) @ np.asarray(model.w.value, float)
                P = np.exp(Z - Z.max(1, keepdims=True)); P /= P.sum(1, keepdims=True)
                for y in itertools.product(range(k), repeat=n):
                    with ctx.scenario(f'classifier, {n} examples with labels {y} of {k}') as s:
                        if not s: continue
                        ctx.state(k, y)
                        s.step()
                        y = np.array(y)
                        mb = (jnp.asarray(X), jnp.asarray(y))
                        s.close(tr.loss(mb), -np.log(P[np.arange(n), y]).mean(), 'cross entropy', tol=1e-4)
                        g, v = tr.gradvals(mb)
                        s.close(np.asarray(v[0]), -np.log(P[np.arange(n), y]).mean(), 'value with the gradient', tol=1e-4)
                        s.close(np.asarray(g[0]), X.T.astype(float) @ (P - np.eye(k)[y]) / n, 'gradient of the cross entropy', tol=1e-3)
                        acc = tr.metrics([mb])
                        s.check(set(acc) == {'Acc'}, f'metrics {sorted(acc)}')
                        s.close(acc['Acc'], (Z.argmax(1) == y).mean(), 'accuracy', tol=1e-5)
                        ctx.outcome(k, tuple(y.tolist()), float(acc['Acc']))
                        parts = [(mb[0][i:i + 2], mb[1][i:i + 2]) for i in range(0, n, 2)]
                        s.close(tr.metrics(parts)['Acc'], (Z.argmax(1) == y).mean(), 'accuracy over several batches', tol=1e-5)
        for n, do in itertools.product(range(1, N + 2), (1, 2, 3)):
            with ctx.scenario(f'regression loss, {n} examples of dimension {do}') as s:
                if not s: continue
                ctx.state('mse', n, do)
                model = linear(2, do)
                tr, _ = make_trainer(tc.Regressor, model, {'train': [0]}, d)
                X, Y = lib.f32(lib.probe(n, 2, t=1)), lib.f32(lib.probe(n, do, t=4))
                E = X.astype(float) @ np.asarray(model.w.value, float) - Y
                g, v = tr.gradvals((jnp.asarray(X), jnp.asarray(Y)))
                s.close(np.asarray(v[0]), (E**2).mean(), 'value', tol=1e-4)
                s.close(np.asarray(g[0]), 2 * X.T @ E / E.size, 'gradient', tol=1e-3)
                w0 = np.asarray(model.w.value, float)
                l = tr.step(2.5, (jnp.asarray(X), jnp.asarray(Y)))
                s.close(np.asarray(model.w.value), w0 - .1 * 2 * X.T @ E / E.size, 'parameters after a step', tol=1e-3)
                s.close(np.asarray(l).reshape(-1)[0], (E**2).mean(), 'loss returned by step', tol=1e-3)


# ------------------------------------------------------------------ loaders
def loaders(ctx, tier):
    import torch, jax, jax.numpy as jnp
    tt, tc, tm, tu = load()
    leaves = {'f32': np.linspace(-1, 1, 6, dtype=np.float32).reshape(2, 3), 'i64': np.arange(4).reshape(2, 2), 'bool': np.array([True, False]), 'torch': torch.arange(6.).reshape(3, 2),
              'torch int': torch.arange(3), 'scalar': torch.tensor(2.5), 'empty': np.zeros((0, 3), np.float32), 'c64': np.array([1 + 2j, -1j], np.complex64), 'torch T': torch.arange(6.).reshape(3, 2).t(), 'np strided': np.arange(12.)[::2]}
    names = list(leaves)
    def wrap(depth):
        out = [(nm, leaves[nm]) for nm in names]
        for _ in range(depth):
            prev = out if len(out) < 40 else out[::max(1, len(out) // 40)]
            out = list(out)
            for (a, x), (b, y) in itertools.islice(((p, q) for p in prev for q in prev[::3]), 400 if tier == 'quick' else 1600):
                out += [(f'({a},{b})', (x, y)), (f'[{a},{b}]', [x, y]), (f'{{{a},{b}}}', {'u': x, 'v': y})]
        return out
    cases = wrap(2)
    import collections
    for nm, x in cases:
        with ctx.scenario(f'minibatch {nm}') as s:
            if not s: continue
            ctx.state(nm)
            s.step()
            y = tu.minibatch_to(x)
            compare(s, x, y)
            ctx.outcome(len(nm))
    from torch.utils.data import DataLoader
    for n, bs in itertools.product(range(0, 6), (1, 2, 4)):
        with ctx.scenario(f'loader of {n} in batches of {bs}') as s:
            if not s: continue
            data = Data(n)
            base = DataLoader(data, batch_size=bs)
            lo = tu.LoaderTo(base)
            s.check(len(lo) == len(base) and lo.batch_size == bs and lo.dataset is data, 'length, batch size or dataset of the mapped loader')
            for _ in range(3):
                s.step()
                got, want = list(lo), list(base)
                if not s.check(len(got) == len(want), f'{len(got)} batches instead of {len(want)}'): break
                for g, w in zip(got, want): compare(s, w, g)


def compare(s, x, y):
    import jax
    if isinstance(x, (tuple, list)):
        if not s.check(type(y) is type(x) and len(x) == len(y), f'structure {type(y)} of length {len(y)}'): return
        for a, b in zip(x, y): compare(s, a, b)
    elif isinstance(x, dict):
        if not s.check(type(y) is dict and list(y) == list(x), f'structure {type(y)}'): return
        for k in x: compare(s, x[k], y[k])
    else:
        x = np.asarray(x)
        s.check(isinstance(y, jax.Array), f'leaf is {type(y)}')
        if s.check(y.shape == x.shape and y.dtype == jax.dtypes.canonicalize_dtype(x.dtype), f'leaf of shape {y.shape} {y.dtype}, given {x.shape} {x.dtype}'): s.check(np.array_equal(np.asarray(y), x.astype(y.dtype)), 'values changed')


# ------------------------------------------------------------------ equivariance error during training
def equivariance(ctx, tier):
    import jax.numpy as jnp
    from mc import ref
    import emlp.reps as R
    tt, tc, tm, tu = load()
    for gname in ('C(3)', 'D(4)', 'S(3)', 'SO(2)', 'SO(3)', 'O(2)', 'SL(2)', 'SO11p()', 'Z(4)', 'O13()'):
        g = ref.group(gname)
        G = g.make()
        els = ([h for h in g.closure(30).values()] if not len(g.lie) else g.gens() + g.elems(2))[:12]
        els = [np.asarray(h).reshape(g.d, g.d) for h in els]
        V, S = ('V', 0), ('1',)
        for ei, eo in ((V, V), (('*', V, V), V), (('+', V, S), ('*', V, V)), (V, ('+', S, ('T', V)))):
            ni, no = ref.size(ei, [g.d]), ref.size(eo, [g.d])
            if ni * no > 80: continue
            rin, rout = lib.build(ei, G), lib.build(eo, G)
            C, B = ref.invariants(('>>', ei, eo), [g])
            ws = [('equivariant', (B @ np.cos(1 + np.arange(B.shape[1]))).reshape(no, ni))] if B.shape[1] else []
            ws += [(f'E{i}{j}', np.eye(no)[:, [i]] @ np.eye(ni)[[j]]) for i in range(min(no, 3)) for j in range(min(ni, 3))]
            for wn, W in ws:
                for bs in (1, 3):
                    with ctx.scenario(f'equivariance error of {wn}, batch of {bs}: {gname} {ref.show(ei)} -> {ref.show(eo)}') as s:
                        if not s: continue
                        ctx.state(s.name)
                        model = type('M', (), {})()
                        model.model = type('N', (), dict(G=G, rep_in=rin, rep_out=rout))()
                        Wj = lib.jn(W)
                        model.predict = lambda x: x @ Wj.T
                        X = lib.f32(lib.probe(bs, ni, t=2))
                        old = G.samples
                        for k in range(0, len(els), bs):
                            hs = [els[(k + j) % len(els)] for j in range(bs)]
                            G.samples = lambda N: jnp.asarray(lib.f32(np.array([hs[j % bs] for j in range(N)])))
                            try: e = float(tm.equivariance_err(model, (jnp.asarray(X), None), G if k % 2 else None))
                            finally: del G.samples
                            s.step()
                            y1 = np.array([W @ ref.rho(ei, [h]) @ x for h, x in zip(hs, X)])
                            y2 = np.array([ref.rho(eo, [h]) @ W @ x for h, x in zip(hs, X)])
                            num, den = np.sqrt(((y1 - y2)**2).mean()), np.sqrt((y1**2).mean()) + np.sqrt((y2**2).mean()) + np.abs(np.array(hs) - np.eye(g.d)).mean()
                            true = num / den if den else 0.
                            if not (den > 1e-6): continue
                            s.check(np.isfinite(e), f'error is {e}')
                            if num < 1e-6 * max(1, np.abs(y1).max()): s.check(e < 1e-3, f'error {e:.3g} for an equivariant map')
                            elif true > .05: s.check(e > .2 * true, f'error {e:.3g} although the outputs differ by {true:.3g}')
                            ctx.outcome(gname, wn, round(true, 2))


# ------------------------------------------------------------------ rollout trainers
SCALES = (1., 1.3, .8, 1.15, .9)


def dynamics(ctx, model, first, tier):
    """every sequence of operations, with the parameters changed before each"""
    import jax, jax.numpy as jnp, objax
    h = hd.load()
    tt, tc, tm, tu = load()
    from torch.utils.data import DataLoader
    with hd.home() as d:
        np.random.seed(1)
        for n, bs in ((3, 2),) if tier == 'quick' else ((3, 2), (4, 4)):
            ds = h.DoubleSpringPendulum(n_systems=n, chunk_len=3, dt=.2, integration_time=1)

            class HModel(objax.Module):
                def __init__(self): self.c = objax.TrainVar(jnp.asarray(1.))

                def __call__(self, z): return ds.H(z) * self.c.value

            class FModel(HModel):
                def __call__(self, z, t): return h.hamiltonian_dynamics(ds.H, z, t) * self.c.value
            T = h.IntegratedDynamicsTrainer if model == 'hamiltonian' else h.IntegratedODETrainer
            field = jax.jit(lambda z, c: h.hamiltonian_dynamics(ds.H, z, 0.) * c)
            known = {}
            def flow(z0, ts, c):
                key = (np.asarray(z0).tobytes(), np.asarray(ts).tobytes(), c)
                if key not in known: known[key] = rk4(lambda z: field(z, c), np.asarray(z0), np.asarray(ts))
                return known[key]
            def mse(c, m=None): return float(((np.array([flow(ds[i][0][0], ds.T, c) for i in range(m or n)]) - ds.Zs[:m or n])**2).mean())
            def roll(c, lo):
                logs, k = 0., 0
                for mb in lo:
                    r = []
                    for z0 in np.asarray(mb[0][0]):
                        p, q = flow(z0, ds.T_long, c), flow(z0, ds.T_long, 1.)
                        e = np.sqrt(((p - q)**2).mean(-1)) / (np.sqrt((p**2).mean(-1)) + np.sqrt((q**2).mean(-1)))
                        r.append(np.log(np.maximum(e, 1e-7)))
                    logs, k = logs + np.sum([x.mean() for x in r]), k + len(r)
                return logs / k
            for seq in itertools.product((first,), *[OPERATIONS] * (1 if tier == 'quick' else 2)):
                with ctx.scenario(f'{model} trainer, {n} chunks in batches of {bs}: ' + ', '.join(seq)) as s:
                    if not s: continue
                    m = HModel() if model == 'hamiltonian' else FModel()
                    lo = tu.LoaderTo(DataLoader(ds, batch_size=bs))
                    tr, log = make_trainer(T, m, {'train': lo, 'test': lo}, d)
                    for k, op in enumerate(seq):
                        s.step()
                        ctx.state(model, n, bs, seq[:k + 1])
                        c = SCALES[1 + (k + len(op)) % 4]
                        m.c.assign(jnp.asarray(c))
                        mb = next(iter(lo))
                        if op == 'metric':
                            want, got = mse(c), float(tr.metrics(lo)['MSE'])
                            s.check(abs(got - want) < 1e-5 + .02 * want, f'rollout error {got:.5g}, expected {want:.5g} with scale {c} (operation {k})')
                        elif op == 'rollout':
                            before = len(log)
                            tr.logStuff(k)
                            got = {a: float(b) for t, dic, st in log[before:] if t == 'metrics' and st == k for a, b in dic.items()}
                            if not s.check({'test_Rollout', 'test_MSE'} <= set(got), f'logged {sorted(got)}'): break
                            want = roll(c, lo)
                            s.check(abs(np.log(got['test_Rollout']) - want) < .6, f'logged rollout error {got["test_Rollout"]:.3g}, expected {np.exp(want):.3g} with scale {c} (operation {k})')
                            s.check(abs(got['test_MSE'] - mse(c)) < 1e-5 + .02 * mse(c), f'logged rollout error {got["test_MSE"]:.5g}, expected {mse(c):.5g} with scale {c} (operation {k})')
                        else:
                            nb = min(bs, n)
                            slope = (mse(c + .02, nb) - mse(c - .02, nb)) / .04
                            if op == 'gradient':
                                g, v = tr.gradvals(mb)
                                s.check(abs(float(np.asarray(g[0])) - slope) < .06 * abs(slope) + 1e-4, f'gradient {float(np.asarray(g[0])):.4g}, expected {slope:.4g} with scale {c} (operation {k})')
                                s.check(abs(float(np.asarray(v[0])) - mse(c, nb)) < 1e-5 + .02 * mse(c, nb), f'loss {float(np.asarray(v[0])):.4g}, expected {mse(c, nb):.4g}')
                            else:
                                tr.step(k, mb)
                                moved = float(m.c.value) - c
                                s.check(abs(moved + .1 * slope) < .006 * abs(slope) + 1e-4, f'the step moved the parameter by {moved:.4g}, expected {-.1 * slope:.4g} with scale {c} (operation {k})')
                    ctx.outcome(model, n, seq)


def rk4(f, z, ts, sub=20):
    out = [z]
    for a, b in zip(ts[:-1], ts[1:]):
        dt = (b - a) / sub
        for _ in range(sub):
            k1 = np.asarray(f(z)); k2 = np.asarray(f(z + dt / 2 * k1)); k3 = np.asarray(f(z + dt / 2 * k2)); k4 = np.asarray(f(z + dt * k3))
            z = (z + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)).astype(np.float32)
        out.append(z)
    return np.array(out)


# ------------------------------------------------------------------ the trainers used in the experiments
def plus(ctx, group, tier):
    import jax.numpy as jnp, objax
    tt, tc, tm, tu = load()
    import emlp.nn as nn, emlp.reps as R
    from torch.utils.data import DataLoader
    from mc import ref
    with hd.home() as d:
        for gname, sizes in ((group, [(5, 2)] if tier == 'quick' else [(5, 2), (4, 4), (7, 3)]),):
            G = ref.group(gname).make()
            rin, rout = 2 * R.V(G), R.V(G) + R.Scalar(G)
            for (n, bs), seq in itertools.product(sizes, (('train', 1), ('train', 2), ('to', 1))):
                with ctx.scenario(f'RegressorPlus {gname}, {n} examples in batches of {bs}: {seq[0]} {seq[1]}') as s:
                    if not s: continue
                    ctx.state(s.name)
                    data, test = Data(n, 2 * G.d, G.d + 1), Data(n + 2, 2 * G.d, G.d + 1, seed=4)
                    np.random.seed(0)
                    model = nn.EMLP(rin, rout, G, ch=R.V(G) + 3 * R.Scalar(G), num_layers=1)
                    stats = (data.X.mean(0), data.X.std(0) + 1, data.Y.mean(0), data.Y.std(0) + 1)
                    stats = (0., 1.5, 0., 2.)
                    wrapped = nn.Standardize(model, stats)
                    twin = {k: np.asarray(v.value) for k, v in wrapped.vars().items()}
                    lo = {'train': tu.LoaderTo(DataLoader(data, batch_size=bs)), 'test': tu.LoaderTo(DataLoader(test, batch_size=bs))}
                    tr, log = make_trainer(tm.RegressorPlus, wrapped, lo, d, lr=lambda e: .01, early='test_MSE')
                    (tr.train if seq[0] == 'train' else tr.train_to)(seq[1])
                    s.step()
                    s.check(tr.epoch == seq[1], f'epoch {tr.epoch}')
                    now = wrapped.vars()
                    s.check(list(now.keys()) == list(twin), f'variables of the model after training {list(now.keys())}')
                    after = {k: np.asarray(v.value) for k, v in now.items()}
                    # the same training by hand
                    for k, v in wrapped.vars().items(): v.assign(jnp.asarray(twin[k]))
                    loss = lambda x, y: jnp.mean((wrapped(x, training=True) - y)**2)
                    gv = objax.GradValues(loss, wrapped.vars())
                    opt = objax.optimizer.SGD(wrapped.vars())
                    for _ in range(seq[1]):
                        for i in range(0, n, bs):
                            gr, _ = gv(jnp.asarray(data.X[i:i + bs]), jnp.asarray(data.Y[i:i + bs]))
                            opt(.01, gr)
                    for k, v in wrapped.vars().items():
                        if not s.close(after[k], np.asarray(v.value), f'parameter {k}', tol=2e-3): break
                    want = np.mean((np.asarray(wrapped(jnp.asarray(test.X), training=False)) - test.Y)**2)
                    m = {}
                    for t, dic, st in log: m.update(dic)
                    s.check({'test_MSE', 'test_equivar_err'} <= set(m), f'logged {sorted(m)}')
                    s.close(m.get('test_MSE', np.nan), want, 'logged test error', tol=2e-3)
                    s.check(m.get('test_equivar_err', 1) < 1e-3, f'equivariance error {m.get("test_equivar_err")}')
                    # a second trainer for the same model
                    tr2, log2 = make_trainer(tm.RegressorPlus, wrapped, lo, d, lr=lambda e: .01)
                    s.close(tr2.metrics(lo['test'])['MSE'], want, 'test error seen by another trainer of the model', tol=2e-3)
                    s.close(tr.metrics(lo['test'])['MSE'], want, 'test error seen by the first trainer', tol=2e-3)
                    ctx.outcome(gname, n, bs, round(float(want), 3))
