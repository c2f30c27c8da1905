"""C12: lazy linear operators agree with dense linear algebra."""
import itertools
import numpy as np
from mc import ref, lib, seams

RULE = ('All operator expressions of depth 1 over all leaves and of depth 2 over a core (thorough: depth 2 for all leaves and depth 3 for a core) over every '
        'operator class as leaf (real, complex, rectangular, empty, permutation, shift, swap, rotation, identity, derivative, user defined) and every '
        'constructor; each applied to vectors (n,), (n,1), matrices (n,k), real and complex, directly, transposed, adjoint, inverse transposed and '
        'densified, against dense float64 algebra; every ill-shaped combination of two leaves must be refused; operands must be unchanged.')
ASSUMPTIONS = ['single precision tolerance 2e-3 relative to the largest entry']


def arr(name):
    i = {'A2': (2, 2), 'B2': (2, 2), 'A3': (3, 3), 'Z2': (2, 2), 'Z3': (3, 3), 'R23': (2, 3), 'R32': (3, 2), 'E20': (2, 0), 'E02': (0, 2), 'A1': (1, 1), 'Z32': (3, 2), 'A4': (4, 4)}[name]
    x = np.arange(1, i[0] * i[1] + 1)
    t = sum(map(ord, name))
    M = np.round(np.cos(1.7 * x * x + t) + .3 * np.sin(x + 2 * t), 2).reshape(i)
    if i[0] == i[1]: M = M + 1.5 * np.eye(i[0])
    if name[0] == 'Z': M = M + 1j * np.round(np.sin(2.3 * x + t), 2).reshape(i)
    return M


LAZY = ('A2', 'Z2', 'A3', 'R23', 'R32', 'Z32', 'E20', 'A1', 'B2', 'Z3', 'A4', 'E02')
CORE = ('L:A2', 'L:Z2', 'L:R23', 'L:Z32', 'perm3', 'perm3t', 'swap3', 'shift3', 'rot2', 'I2', 'jvp2', 'cust2', 'L:A3', 'mat2')
ALL = CORE + ('L:E20', 'L:E02', 'L:A1', 'L:B2', 'L:Z3', 'L:R32', 'L:A4', 'shift4', 'shift3k2', 'swap4', 'rot2k2', 'rot2k3', 'rot3', 'I3', 'I1', 'jvp3', 'jvpz2', 'cfun2', 'cfun23', 'ident3', 'perm4', 'mvonly2', 'mmonly3', 'np2', 'int2')
NOADJ = ('mvonly2', 'mmonly3')


def leaf(name):
    import jax.numpy as jnp
    from emlp.reps import linear_operators as LO, linear_operator_base as LB
    if name.startswith('L:'): return LB.Lazy(lib.jn(arr(name[2:])))
    if name == 'np2': return LB.Lazy(lib.f32(arr('A2')))
    if name == 'int2': return LB.Lazy(np.array([[1, 2], [3, 5]]))
    if name.startswith('perm'): return LO.LazyPerm(np.array(PERMS[name]))
    if name.startswith('swap'): return LO.SwapMatrix((0, 2), int(name[4]))
    if name.startswith('shift'): return LO.LazyShift(int(name[5]), int(name[7]) if 'k' in name else 1)
    if name.startswith('rot'): return LO.Rot90(int(name[3]), int(name[5]) if 'k' in name else 1)
    if name in ('I1', 'I2', 'I3'): return LO.I(int(name[1]))
    if name == 'ident3': return LB.IdentityOperator((3, 3))
    if name.startswith('mat'): return LB.MatrixLinearOperator(lib.jn(arr('Z2')))
    if name.startswith('jvp'):
        z = 'z' in name; n = int(name[-1])
        A, B, dX = (lib.jn(arr(x)) for x in (('Z2' if z else 'A2', 'B2', 'A2') if n == 2 else ('A3', 'A3', 'A3')))
        fn = lambda x: LB.Lazy(x @ A @ x + B @ x)
        return LO.LazyJVP(fn, lib.jn(arr('B2' if n == 2 else 'A3') + 0), dX)
    Z = lib.jn(arr('Z2'))
    if name == 'cust2':
        class Custom(LB.LinearOperator):
            def __init__(self): super().__init__(None, (2, 2))
            def _matvec(self, v): return Z @ v
            def _adjoint(self): return LB.Lazy(Z.conj().T)
        return Custom()
    if name == 'mvonly2':
        class Custom(LB.LinearOperator):
            def __init__(self): super().__init__(None, (2, 2))
            def _matvec(self, v): return Z @ v
        return Custom()
    if name == 'mmonly3':
        A = lib.jn(arr('A3'))
        class Custom(LB.LinearOperator):
            def __init__(self): super().__init__(None, (3, 3))
            def _matmat(self, v): return A @ v
        return Custom()
    if name == 'cfun2': return LB.LinearOperator((2, 2), lambda v: Z @ v, rmatvec=lambda v: Z.conj().T @ v)
    if name == 'cfun23':
        R = lib.jn(arr('R23'))
        return LB.LinearOperator((2, 3), lambda v: R @ v, rmatvec=lambda v: R.T @ v, matmat=lambda v: R @ v, rmatmat=lambda v: R.T @ v)
    raise KeyError(name)


PERMS = {'perm3': [2, 0, 1], 'perm3t': [1, 0, 2], 'perm4': [1, 3, 0, 2]}


def leafdense(name):
    if name.startswith('L:'): return arr(name[2:])
    if name == 'np2': return arr('A2')
    if name == 'int2': return np.array([[1., 2], [3, 5]])
    if name.startswith('perm'): return np.eye(len(PERMS[name]))[PERMS[name]]
    if name.startswith('swap'):
        p = list(range(int(name[4]))); p[0], p[2] = 2, 0
        return np.eye(len(p))[p]
    if name.startswith('shift'):
        n, k = int(name[5]), int(name[7]) if 'k' in name else 1
        M = np.zeros((n, n))
        for i in range(n): M[(i + k) % n, i] = 1
        return M
    if name.startswith('rot'):
        n, k = int(name[3]), int(name[5]) if 'k' in name else 1
        return np.array([np.rot90(e.reshape(n, n), k).reshape(-1) for e in np.eye(n * n)]).T
    if name in ('I1', 'I2', 'I3'): return np.eye(int(name[1]))
    if name == 'ident3': return np.eye(3)
    if name.startswith('jvp'):
        z = 'z' in name; n = int(name[-1])
        A, B, dX = (arr(x) for x in (('Z2' if z else 'A2', 'B2', 'A2') if n == 2 else ('A3', 'A3', 'A3')))
        X = arr('B2' if n == 2 else 'A3')
        return dX @ A @ X + X @ A @ dX + B @ dX
    if name == 'mmonly3': return arr('A3')
    if name == 'cfun23': return arr('R23')
    return arr('Z2')


def leaves(t):
    if t[0] == 'leaf': return [t[1]]
    return [x for a in t[1:] if isinstance(a, tuple) for x in leaves(a)]


UN = ('T', 'H', 'neg', 's2', 's-.5', 's1j', 'sn', '^0', '^1', '^2', '^3', 'ds1', 'ds2', 'ds3', 'kr1', 'cat1', '+arr', '-arr', 'arr+', 'krA', 'Akr', 'ksA', 'Aks', 'dsA', 'Ads', 'catA', 'div')
BIN = ('+', '-', '@', '*', 'kr', 'ks', 'ds', 'ds23', 'cat', 'kr3')
SC = {'s2': 2, 's-.5': -.5, 's1j': 1 + .5j}


def dense(t):
    op = t[0]
    if op == 'leaf': return leafdense(t[1]).astype(complex)
    A = dense(t[1])
    n, m = A.shape
    sq = n == m
    def need(c):
        if not c: raise ValueError('shape')
    X = arr('R23').astype(complex)
    S = arr('B2').astype(complex)
    if op == 'T': return A.T
    if op == 'H': return A.conj().T
    if op == 'neg': return -A
    if op in SC: return A * SC[op]
    if op == 'sn': return A * 3.
    if op == 'div': return A * .25
    if op[0] == '^': need(sq); return np.linalg.matrix_power(A, int(op[1]))
    if op in ('ds1', 'kr1', 'cat1'): return A
    if op == 'ds2': return np.kron(np.eye(2), A)
    if op == 'ds3': return np.kron(np.eye(3), A)
    if op in ('+arr', 'arr+'): return A + other(A.shape)
    if op == '-arr': return A - other(A.shape)
    if op == 'krA': return np.kron(A, X)
    if op == 'Akr': return np.kron(X, A)
    if op == 'ksA': need(sq); return np.kron(A, np.eye(2)) + np.kron(np.eye(n), S)
    if op == 'Aks': need(sq); return np.kron(S, np.eye(n)) + np.kron(np.eye(2), A)
    if op == 'dsA': return bd(A, A, X, X, X)
    if op == 'Ads': return bd(X, A, A)
    if op == 'catA': return np.concatenate([A, other((2, m)), A])
    B = dense(t[2])
    if op in '+-': need(A.shape == B.shape); return A + B if op == '+' else A - B
    if op in '@*': need(m == B.shape[0]); return A @ B
    if op == 'kr': return np.kron(A, B)
    if op == 'kr3': return np.kron(np.kron(A, B), A)
    if op == 'ks': need(sq and B.shape[0] == B.shape[1]); return np.kron(A, np.eye(len(B))) + np.kron(np.eye(n), B)
    if op == 'ds': return bd(A, B)
    if op == 'ds23': return bd(A, A, B, B, B)
    if op == 'cat': need(m == B.shape[1]); return np.concatenate([A, B, A])
    raise KeyError(op)


def other(shape):
    x = np.arange(shape[0] * shape[1]).reshape(shape)
    return np.round(np.sin(1.1 * x + .3), 2)


def bd(*Ms):
    out = np.zeros((sum(M.shape[0] for M in Ms), sum(M.shape[1] for M in Ms)), complex)
    i = j = 0
    for M in Ms:
        out[i:i + M.shape[0], j:j + M.shape[1]] = M
        i, j = i + M.shape[0], j + M.shape[1]
    return out


def lazy(t, pool):
    """the operator on the library's objects; every intermediate object goes to pool"""
    from emlp.reps.linear_operators import LazyKron, LazyKronsum, LazyDirectSum, ConcatLazy
    op = t[0]
    if op == 'leaf': A = leaf(t[1])
    else:
        a = lazy(t[1], pool)
        X, S = lib.jn(arr('R23')), lib.jn(arr('B2'))
        if op == 'T': A = a.T
        elif op == 'H': A = a.H
        elif op == 'neg': A = -a
        elif op in SC: A = SC[op] * a
        elif op == 'sn': A = a * 3.
        elif op == 'div': A = .25 * a
        elif op[0] == '^': A = a**int(op[1])
        elif op == 'ds1': A = LazyDirectSum([a])
        elif op == 'ds2': A = LazyDirectSum([a], [2])
        elif op == 'ds3': A = LazyDirectSum([a, a], [1, 2])
        elif op == 'kr1': A = LazyKron([a])
        elif op == 'cat1': A = ConcatLazy([a])
        elif op == '+arr': A = a + lib.jn(other(a.shape))
        elif op == 'arr+': A = lib.jn(other(a.shape)) + a
        elif op == '-arr': A = a - lib.jn(other(a.shape))
        elif op == 'krA': A = LazyKron([a, X])
        elif op == 'Akr': A = LazyKron([X, a])
        elif op == 'ksA': A = LazyKronsum([a, S])
        elif op == 'Aks': A = LazyKronsum([S, a])
        elif op == 'dsA': A = LazyDirectSum([a, lib.f32(arr('R23'))], [2, 3])
        elif op == 'Ads': A = LazyDirectSum([X, a], [1, 2])
        elif op == 'catA': A = ConcatLazy([a, lib.jn(other((2, a.shape[1]))), a])
        else:
            b = lazy(t[2], pool)
            if op == '+': A = a + b
            elif op == '-': A = a - b
            elif op == '@': A = a @ b
            elif op == '*': A = a * b
            elif op == 'kr': A = LazyKron([a, b])
            elif op == 'kr3': A = LazyKron([a, b, a])
            elif op == 'ks': A = LazyKronsum([a, b])
            elif op == 'ds': A = LazyDirectSum([a, b])
            elif op == 'ds23': A = LazyDirectSum([a, b], [2, 3])
            elif op == 'cat': A = ConcatLazy([a, b, a])
    pool.append((A, t))
    return A


INV_LEAF = ('L:', 'perm', 'swap', 'shift', 'rot', 'I', 'np2', 'int2')
INV_OP = ('neg', 's2', 's-.5', 's1j', 'sn', 'div', '^0', '^1', '^2', '^3', 'ds1', 'ds2', 'ds3', 'kr1', '@', '*', 'kr', 'kr3', 'ds', 'ds23')


def has_inv(t):
    if t[0] == 'leaf': return t[1].startswith(INV_LEAF) and leafdense(t[1]).shape[0] == leafdense(t[1]).shape[1]
    if t[0] not in INV_OP: return t[0] in ('+', '-', '+arr', '-arr', 'arr+')     # sums invert their dense form
    return all(has_inv(a) for a in t[1:])


def depth(t):
    return 0 if t[0] == 'leaf' else 1 + max(depth(a) for a in t[1:])


def show(t):
    if t[0] == 'leaf': return t[1]
    return f'{t[0]}({",".join(show(a) for a in t[1:])})'


def family(tier):
    q = tier == 'quick'
    L = [('leaf', x) for x in (CORE if q else ALL)]
    LA = [('leaf', x) for x in ALL]
    sm = [('leaf', x) for x in ('L:Z2', 'L:R23', 'perm3', 'cust2', 'L:Z32', 'I2', 'L:A2', 'rot2')]
    core = sm[:4] if q else L
    out = list(LA)
    out += [(u, a) for u in UN for a in LA] + [(b, x, y) for b in BIN for x in LA for y in LA if not q or (x in L and y in L)]
    un = [(u, a) for u in (INNER if q else UN) for a in (sm + [('leaf', 'jvp2')] if q else L)]
    out += [(u, x) for u in UN for x in un if not q or 'jvp2' not in leaves(x) or u in ('T', 'H', 'krA', 'ds2')]
    out += [(u, (b, x, y)) for u in ('T', 'H', 's1j', 'ds2', 'krA', '^2', 'Aks', '+arr', 'catA', 'neg')[:5 if q else 10] for b in BIN for x in core for y in core]
    out += [(b, (u, x), y) for b in BIN for u in ('H', 's1j', 'ds2', 'T', '^2', 'krA')[:3 if q else 6] for x in core for y in core[:6]]
    out += [(b, y, (u, x)) for b in BIN for u in ('T', 'Akr', 'H', 's-.5')[:2 if q else 4] for x in core for y in core[:6]]
    if not q:
        out += [(u, (v, (w, x))) for u in INNER for v in INNER for w in INNER for x in sm[:4]]
        out += [(u, (b, (v, x), y)) for u in ('T', 'H', '^2', 'ds2') for b in BIN for v in ('T', 'H', 's1j', 'ds2') for x in sm[:5] for y in sm[:5]]
    ok = []
    for t in dict.fromkeys(out):
        ls = leaves(t)
        if any(x in NOADJ for x in ls) and t[0] != 'leaf' and t[0] not in ('neg', 's2', '+arr', 'kr', 'ds', '@', 'cat', '+'): continue
        # an operator given only on single vectors is not applied to a batch of no vectors
        if any(x in ('L:E02', 'L:E20') for x in ls) and any(x.startswith(('cust', 'cfun', 'mvonly')) for x in ls): continue
        try: D = dense(t)
        except ValueError: continue
        if max(D.shape) > (10 if q else 24) or np.abs(D).max(initial=0) > 1e4: continue
        ok.append((t, D))
    return ok


INNER = ('T', 'H', 's1j', '^2', 'ds2', 'krA', 'Aks', '+arr', 'catA')


def plan(tier):
    k = 16 if tier == 'quick' else 64
    return [('run', dict(i=i, k=k, tier=tier)) for i in range(k)] + [('refuse', {})]


def run(ctx, i, k, tier):
    fam = family(tier)
    fam.sort(key=lambda x: (x[1].shape, len(show(x[0]))))
    for t, D in fam[len(fam) * i // k: len(fam) * (i + 1) // k]:
        with ctx.scenario(show(t)) as s:
            if s: one(ctx, s, t, D)


def one(ctx, s, t, D):
    import jax.numpy as jnp
    pool = []
    A = lazy(t, pool)
    s.step()
    ctx.state(s.name)
    ctx.outcome(D.shape, np.round(D, 2).tobytes())
    if not s.check(tuple(A.shape) == D.shape, f'shape {A.shape} instead of {D.shape}'): return
    noadj = any(x in NOADJ for x in leaves(t))
    deep = depth(t) > 1
    apply(s, A, D, 'A', deep)
    if not noadj:
        apply(s, A.T, D.T, 'A.T', deep)
        apply(s, A.H, D.conj().T, 'A.H', deep)
        s.close(lib.dense(A.T.T), D, 'A.T.T')
        s.close(lib.dense(A.H.H), D, 'A.H.H')
        if D.size and not deep:
            s.close(np.asarray(A.rmatvec(lib.jn(lib.probe(D.shape[0], cplx=True)))), D.conj().T @ lib.probe(D.shape[0], cplx=True), 'rmatvec')
            s.close(np.asarray(A.rmatmat(lib.jn(lib.probe(D.shape[0], 2)))), D.conj().T @ lib.probe(D.shape[0], 2), 'rmatmat')
    if D.shape[0] == D.shape[1] and D.size and has_inv(t) and np.linalg.cond(D) < 200:
        Ai = A.invT()
        s.close(lib.dense(Ai), np.linalg.inv(D).T, 'A.invT()', tol=5e-3)
        v = lib.probe(D.shape[0])
        s.close(np.asarray(Ai @ lib.jn(v)), np.linalg.inv(D).T @ v, 'A.invT()@v', tol=5e-3)
    # nothing that was combined has changed
    for B, u in pool:
        s.close(lib.dense(B), dense(u), f'operand {show(u)} changed')
    if len(s.ctx.samples) < 3: ctx.sample({'expression': s.name, 'shape': list(D.shape)})


def apply(s, A, D, what, deep=False):
    n, m = D.shape
    if not s.check(tuple(A.shape) == D.shape, f'{what}: shape {A.shape} instead of {D.shape}'): return
    s.close(lib.dense(A), D, f'{what}.to_dense()')
    if not m: return
    for c in (True,) if deep else (False, True):
        v = lib.probe(m, cplx=c)
        V2 = lib.probe(m, 2, cplx=c, t=1)
        s.close(np.asarray(A @ lib.jn(v)), D @ v, f'{what}@v')
        s.close(np.asarray(A @ lib.jn(V2)), D @ V2, f'{what}@V')
    if deep: return
    v = lib.probe(m)
    s.close(np.asarray(A @ lib.jn(v[:, None])), (D @ v)[:, None], f'{what}@column')
    s.close(np.asarray(A * lib.jn(v)), D @ v, f'{what}*v')
    s.close(np.asarray(A @ lib.f32(v)), D @ v, f'{what}@numpy v')
    V3 = lib.probe(m, 3)
    s.close(np.asarray(A.matmat(lib.jn(V3))), D @ V3, f'{what}.matmat')
    s.ok()


def refuse(ctx):
    """every ill-shaped combination raises"""
    from emlp.reps.linear_operators import ConcatLazy
    import jax.numpy as jnp
    def raises(s, f, what):
        try: r = f()
        except Exception: s.ok()
        else: s.fail(f'{what} was not refused', result=getattr(r, 'shape', r))
    for x in ALL:
        A = leaf(x)
        n, m = A.shape
        with ctx.scenario(f'refuse {x}') as s:
            if not s: continue
            s.step(); ctx.state(s.name)
            for bad in (m + 1, m + 2, 2 * m + 1) + ((m - 1,) if m > 1 else ()):
                raises(s, lambda: A @ jnp.ones(bad), f'{x}@vector of length {bad}')
                raises(s, lambda: A @ jnp.ones((bad, 1)), f'{x}@column of length {bad}')
                raises(s, lambda: A @ jnp.ones((bad, 2)), f'{x}@matrix with {bad} rows')
            raises(s, lambda: A @ jnp.ones((m, 2, 2)), 'a 3d array')
            raises(s, lambda: A @ 2, 'A@scalar')
            if n != m:
                raises(s, lambda: A**2, 'power of a rectangular operator')
            raises(s, lambda: A**-1, 'negative power')
            raises(s, lambda: A**.5, 'fractional power')
            for y in ALL:
                B = leaf(y)
                if B.shape != A.shape:
                    raises(s, lambda: A + B, f'{x}+{y}')
                    raises(s, lambda: A - B, f'{x}-{y}')
                if B.shape[0] != m: raises(s, lambda: A @ B, f'{x}@{y}'); raises(s, lambda: A * B, f'{x}*{y}')
                if B.shape[1] != m: raises(s, lambda: ConcatLazy([A, B]), f'ConcatLazy([{x},{y}])')
                s.step(3)
