"""One interface for the layers/networks of the four frameworks.
Net(fw, build, nin): `shapes` of the parameter tensors, apply(values, x) -> numpy, apply_many([stacked values], x)."""
import numpy as np

FRAMEWORKS = ('objax', 'flax', 'haiku', 'torch')


def module(fw):
    import importlib
    return importlib.import_module({'objax': 'emlp.nn.objax', 'flax': 'emlp.nn.flax', 'haiku': 'emlp.nn.haiku', 'torch': 'emlp.nn.pytorch'}[fw])


class Net:
    """make(m) builds the layer from the framework's module m; nin is the input size (used to initialise)"""

    def __init__(self, fw, make, nin, dtype=np.float32, call=None):
        import jax
        self.fw, self.nin = fw, nin
        self.call = call or (lambda f, x: f(x))
        x0 = np.ones((1, nin), dtype)
        m = module(fw)
        if fw == 'objax':
            self.obj = make(m)
            self.vars = list(self.obj.vars().values()) if hasattr(self.obj, 'vars') else []
            seen = []
            for v in self.vars:
                if not any(v is w for w in seen): seen.append(v)
            self.vars = seen
            self.init = [np.asarray(v.value) for v in self.vars]
            self._fn = None
        elif fw == 'flax':
            self.obj = make(m)
            tree = self.obj.init(jax.random.PRNGKey(0), x0)
            leaves, self.tree = jax.tree_util.tree_flatten(tree)
            self.init = [np.asarray(l) for l in leaves]
        elif fw == 'haiku':
            import haiku as hk
            self.obj = hk.without_apply_rng(hk.transform(lambda x: self.call(make_cached(x), x)))
            made = []

            def make_cached(x):
                if not made: made.append(make(m))
                return made[0]
            tree = self.obj.init(jax.random.PRNGKey(0), x0)
            leaves, self.tree = jax.tree_util.tree_flatten(tree)
            self.init = [np.asarray(l) for l in leaves]
        else:
            import torch
            torch.manual_seed(0)
            self.obj = make(m)
            self.vars = list(self.obj.parameters())
            self.init = [v.detach().numpy().copy() for v in self.vars]
        self.shapes = [v.shape for v in self.init]
        self._jit = {}

    # pure function of (parameter list, x)
    def pure(self, ps, x):
        import jax
        if self.fw == 'objax':
            old = [v.value for v in self.vars]
            try:
                for v, p in zip(self.vars, ps): v.assign(p)
                return self.call(self.obj, x)
            finally:
                for v, p in zip(self.vars, old): v.assign(p)
        tree = jax.tree_util.tree_unflatten(self.tree, list(ps))
        if self.fw == 'flax': return self.call(lambda y: self.obj.apply(tree, y), x)
        return self.obj.apply(tree, x)

    def apply(self, ps, x, jit=True):
        """outputs for the parameter values ps and the input array x"""
        if self.fw == 'torch':
            import torch
            for v, p in zip(self.vars, ps): v.data = torch.from_numpy(np.array(p, np.float32))
            with torch.no_grad():
                return self.call(self.obj, torch.from_numpy(np.array(x))).numpy()
        import jax
        ps = [np.asarray(p, np.float32) for p in ps]
        if not jit:
            return np.asarray(self.pure([jax.numpy.asarray(p) for p in ps], jax.numpy.asarray(x)))
        if 1 not in self._jit: self._jit[1] = jax.jit(self.pure)
        return np.asarray(self._jit[1](ps, x))

    def apply_many(self, ps, x):
        """ps: parameter tensors with a leading axis of K values; returns (K, *out)"""
        K = len(ps[0])
        if self.fw == 'torch':
            return np.array([self.apply([p[k] for p in ps], x) for k in range(K)])
        import jax
        ps = [np.asarray(p, np.float32) for p in ps]
        if 2 not in self._jit: self._jit[2] = jax.jit(jax.vmap(self.pure, in_axes=(0, None)))
        return np.asarray(self._jit[2](ps, x))

    def generic(self, t=0, scale=1.):
        """deterministic generic parameter values: a function of the shape (and t) only"""
        out = []
        for sh in self.shapes:
            n = int(np.prod(sh)) if len(sh) else 1
            i = np.arange(1, n + 1)
            out.append((scale * (np.cos(1.7 * i + .013 * i * i + .9 * t + .31 * len(sh)) + .1 * np.sin(2.2 * i * (t + 1)))).reshape(sh).astype(np.float32))
        return out

    def units(self):
        """all unit parameter directions: list of stacked tensors, and the number of parameters"""
        P = sum(int(np.prod(s)) for s in self.shapes)
        E = np.eye(P, dtype=np.float32)
        out, o = [], 0
        for s in self.shapes:
            n = int(np.prod(s))
            out.append(E[:, o:o + n].reshape((P,) + tuple(s)))
            o += n
        return out, P
