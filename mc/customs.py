"""User-defined representations written against the public Rep interface (rho + __str__ only), and the
matrix functions they are documented to implement."""
import numpy as np


def _mk(fn, label):
    def make(G):
        from emlp.reps import Rep
        import jax.numpy as jnp

        class Custom(Rep):
            def __init__(self, G):
                self.G = G
                self.label = label

            def rho(self, M):
                if isinstance(M, dict): M = M[self.G]
                if not isinstance(M, (np.ndarray, jnp.ndarray)): M = M @ jnp.eye(self.G.d)   # lazy operator
                return fn(jnp, M)

            def __str__(self):
                return label

            def __call__(self, G):
                return type(self)(G)
        Custom.__name__ = 'Custom' + label
        return Custom(G)
    return make


_F = {
    'Sq': lambda xp, M: xp.kron(M, M),
    'Conj': lambda xp, M: xp.kron(M, xp.linalg.inv(M).T),
    'Det': lambda xp, M: xp.linalg.det(M)[None, None],
    'DetV': lambda xp, M: M * xp.linalg.det(M),
    'Cubic': lambda xp, M: xp.kron(xp.linalg.det(M)[None, None], xp.kron(M, M)),
    'OnePlusV': lambda xp, M: xp.concatenate([xp.concatenate([xp.eye(1), xp.zeros((1, M.shape[0]))], 1),
                                              xp.concatenate([xp.zeros((M.shape[0], 1)), M], 1)], 0),
}
REPS = {k: _mk(f, k) for k, f in _F.items()}
REFS = {k: (lambda M, f=f: f(np, np.asarray(M))) for k, f in _F.items()}
NONORTH = set()     # representations that are not orthogonal although the group is
