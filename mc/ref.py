"""Reference model: plain float64 numpy, written from the documentation, sharing no code with emlp."""
import itertools, math
import numpy as np
from scipy.linalg import expm, null_space

# ------------------------------------------------------------------ groups


def _E(n, i, j):
    a = np.zeros((n, n))
    a[i, j] = 1
    return a


def _stack(l, n, dt=float):
    return np.array(l, dtype=dt).reshape(len(l), n, n)


def permmat(p):
    """matrix M with (M v) = v[p]"""
    p = list(p)
    m = np.zeros((len(p), len(p)))
    for i, j in enumerate(p):
        m[i, j] = 1
    return m


class RG:
    """Reference group: name, constructor expression (evaluated on emlp.groups), generators."""

    def __init__(self, name, ctor, lie, disc, d, tags=()):
        self.name, self.ctor, self.d = name, ctor, d
        self.lie, self.disc = lie, disc
        self.complex = np.iscomplexobj(lie) or np.iscomplexobj(disc)
        self.tags = set(tags)

    def make(self):
        import emlp.groups as g
        return eval(self.ctor, {'G': g, 'slice': slice, 'np': np, 'mine': mine})

    def orthogonal(self):
        for A in self.lie:
            if np.abs(A + A.T).max() > 1e-9:
                return False
        for h in self.disc:
            if np.abs(h.T @ h - np.eye(self.d)).max() > 1e-9:
                return False
        return not self.complex or all(np.abs(np.imag(x)).max() < 1e-12 for x in list(self.lie) + list(self.disc))

    def permutation(self):
        if len(self.lie):
            return False
        for h in self.disc:
            if not (np.all((np.abs(h) < 1e-9) | (np.abs(h - 1) < 1e-9)) and np.all(np.abs(h.sum(0) - 1) < 1e-9) and np.all(np.abs(h.sum(1) - 1) < 1e-9)):
                return False
        return True

    def elems(self, n=3):
        """n fixed, generic, well conditioned elements (products of exponentials and generators)."""
        out = []
        for t in range(n):
            g = np.eye(self.d, dtype=complex if self.complex else float)
            if len(self.lie):
                c = np.array([math.sin(1.7 * (k + 1) + 2.3 * (t + 1) + .37 * k * t) for k in range(len(self.lie))])
                nrm = np.linalg.norm((c[:, None, None] * self.lie).sum(0)) + 1e-9
                g = g @ expm((c[:, None, None] * self.lie).sum(0) * (.8 / nrm if nrm > .8 else 1.))
            m = len(self.disc)
            for k in range(m + t if m else 0):
                g = g @ self.disc[(k * (t + 1) + t) % m]
            out.append(g)
        return out

    def gens(self):
        """generators as group elements: discrete ones and short exponentials along every Lie direction"""
        return [h for h in self.disc] + [expm(A * (.7 / (1 + np.linalg.norm(A)))) for A in self.lie]

    def tests(self, n=1):
        return self.gens() + self.elems(n)

    def closure(self, limit=6000):
        """all elements generated by the discrete generators (None if more than limit)"""
        return closure(self.disc, self.d, limit)

    def __repr__(self):
        return self.name


def mkey(m):
    return (np.round(np.asarray(m).astype(complex), 3) + (0. + 0.j)).tobytes()


def closure(gens, d, limit=6000):
    gens = [np.asarray(h) for h in gens]
    seen = {mkey(np.eye(d)): np.eye(d)}
    front = [np.eye(d)]
    while front:
        new = []
        for a in front:
            for h in gens:
                b = a @ h
                k = mkey(b)
                if k not in seen:
                    seen[k] = b
                    new.append(b)
                    if len(seen) > limit: return None
        front = new
    return seen


def so_alg(n):
    return _stack([_E(n, i, j) - _E(n, j, i) for i in range(n) for j in range(i)], n)


def lorentz_alg(p):
    n = p + 1
    l = [_E(n, 0, i) + _E(n, i, 0) for i in range(1, n)]
    l += [_E(n, i, j) - _E(n, j, i) for i in range(1, n) for j in range(1, i)]
    return _stack(l, n)


def sp_alg(m):
    l = []
    for i in range(m):
        for j in range(m):
            a = np.zeros((2 * m, 2 * m)); a[i, j] = 1; a[m + j, m + i] = -1; l.append(a)
    for i in range(m):
        for j in range(i + 1):
            a = np.zeros((2 * m, 2 * m)); a[i, m + j] = a[j, m + i] = 1; l.append(a)
            l.append(a.T.copy())
    return _stack(l, 2 * m)


def u_alg(n, special):
    l = [(_E(n, i, j) - _E(n, j, i)).astype(complex) for i in range(n) for j in range(i)]
    l += [1j * (_E(n, i, j) + _E(n, j, i)) for i in range(n) for j in range(i)]
    if special:
        l += [1j * (_E(n, i, i) - _E(n, i + 1, i + 1)) for i in range(n - 1)]
    else:
        l += [1j * _E(n, i, i) for i in range(n)]
    return _stack(l, n, complex)


def sl_alg(n):
    return _stack([_E(n, i, j) for i in range(n) for j in range(n) if i != j] + [_E(n, i, i) - _E(n, i + 1, i + 1) for i in range(n - 1)], n)


def gl_alg(n):
    return _stack([_E(n, i, j) for i in range(n) for j in range(n)], n)


def rot2(t):
    return np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])


def s_gens(n):
    out = []
    for i in range(1, n):
        p = list(range(n)); p[0], p[i] = p[i], p[0]; out.append(permmat(p))
    return _stack(out, n)


def z_gens(n):
    return _stack([permmat([(i - 1) % n for i in range(n)])], n)


def cube_gens():
    # faces U,F,R,B,L,D = 0..5 ; rotations of the cube seen as face permutations
    nrm = {0: (0, 0, 1), 5: (0, 0, -1), 1: (0, -1, 0), 3: (0, 1, 0), 2: (1, 0, 0), 4: (-1, 0, 0)}
    inv = {v: k for k, v in nrm.items()}
    Rx = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]); Ry = np.array([[0, 0, 1], [0, 1, 0], [-1, 0, 0]])
    return _stack([permmat([inv[tuple(int(x) for x in R @ np.array(nrm[f]))] for f in range(6)]) for R in (Rx, Ry)], 6)


def rubiks_gens():
    """Quarter turns of a 3x3x3 cube on its 48 stickers.  Stickers are numbered face by face
    (U,F,R,B,L,D), row by row without the centre; the side faces are read as seen from outside with
    the U face on top, U with B on top, D with F on top."""
    nrm = {0: (0, 0, 1), 1: (0, -1, 0), 2: (1, 0, 0), 3: (0, 1, 0), 4: (-1, 0, 0), 5: (0, 0, -1)}
    right = {0: (1, 0, 0), 1: (1, 0, 0), 2: (0, 1, 0), 3: (-1, 0, 0), 4: (0, -1, 0), 5: (1, 0, 0)}
    down = {0: (0, -1, 0), 1: (0, 0, -1), 2: (0, 0, -1), 3: (0, 0, -1), 4: (0, 0, -1), 5: (0, 1, 0)}
    pos, idx = [], {}
    for f in range(6):
        for r in range(3):
            for c in range(3):
                if (r, c) == (1, 1): continue
                p = np.array(nrm[f]) * 1 + np.array(right[f]) * (c - 1) + np.array(down[f]) * (r - 1)
                key = (tuple(int(x) for x in p), nrm[f])
                idx[key] = len(pos); pos.append(key)
    def rotm(ax):
        ax = np.array(ax)
        K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
        return np.rint(np.eye(3) + K + K @ K).astype(int)
    gens = []
    for f in range(6):
        R = rotm(nrm[f])
        perm = list(range(48))
        for i, (p, n) in enumerate(pos):
            if np.dot(p, nrm[f]) == 1:
                q = (tuple(int(x) for x in R @ np.array(p)), tuple(int(x) for x in R @ np.array(n)))
                perm[i] = idx[q]
        gens.append(permmat(perm))
    return _stack(gens, 48)


def zkszn_gens(k, n):
    d = k * n * n
    ids = np.arange(d).reshape(k, n, n)
    def mat(a):
        return permmat(a.reshape(-1))
    t1, t2 = np.empty_like(ids), np.empty_like(ids)
    rt = np.empty_like(ids)
    for a in range(k):
        for i in range(n):
            for j in range(n):
                t1[a, i, j] = ids[a, (i - 1) % n, j]
                t2[a, i, j] = ids[a, i, (j - 1) % n]
    for a in range(k):
        src = ids[(a - 1) % k]
        for _ in range(4 // k):      # 90 degree turn: new[i,j] = old[j, n-1-i]
            src = np.array([[src[j, n - 1 - i] for j in range(n)] for i in range(n)])
        rt[a] = src
    return _stack([mat(t1), mat(t2), mat(rt)], d)


def embed(lie, disc, dd, sl):
    idx = list(range(dd))[sl]
    def e(M, base):
        out = base.astype(M.dtype)
        out[np.ix_(idx, idx)] = M
        return out
    return (np.array([e(A, np.zeros((dd, dd))) for A in lie]).reshape(len(lie), dd, dd),
            np.array([e(h, np.eye(dd)) for h in disc]).reshape(len(disc), dd, dd))


def dprod(a, b):
    Ia, Ib = np.eye(a.d), np.eye(b.d)
    lie = [np.kron(A, Ib) for A in a.lie] + [np.kron(Ia, B) for B in b.lie]
    disc = [np.kron(h, Ib) for h in a.disc] + [np.kron(Ia, h) for h in b.disc]
    d = a.d * b.d
    dt = complex if (a.complex or b.complex) else float
    return _stack(lie, d, dt), _stack(disc, d, dt)


_NO = lambda n: np.zeros((0, n, n))
_table = {}


def _add(name, lie, disc, d, tags=(), ctor=None):
    _table[name] = RG(name, 'G.' + name if ctor is None else ctor, _NO(d) if lie is None else lie, _NO(d) if disc is None else disc, d, tags)


def table():
    if _table: return _table
    for n in (1, 2, 3, 4): _add(f'Trivial({n})', None, None, n, ['finite'])
    for n in (2, 3, 4, 5): _add(f'SO({n})', so_alg(n), None, n)
    for n in (1, 2, 3, 4, 5): _add(f'O({n})', so_alg(n), _stack([np.diag([-1.] + [1.] * (n - 1))], n), n)
    for k in range(1, 9): _add(f'C({k})', None, _stack([rot2(2 * math.pi / k)], 2), 2, ['finite'])
    for k in range(1, 9): _add(f'D({k})', None, _stack([rot2(2 * math.pi / k), np.diag([-1., 1])], 2), 2, ['finite'])
    for n in (1, 2, 3): _add(f'Scaling({n})', _stack([np.eye(n)], n), None, n, ['noncompact'])
    _add('Parity()', None, _stack([np.diag([1., -1, -1, -1])], 4), 4, ['finite'])
    _add('TimeReversal()', None, _stack([np.diag([-1., 1, 1, 1])], 4), 4, ['finite'])
    _add('SO13p()', lorentz_alg(3), None, 4, ['noncompact'])
    _add('SO13()', lorentz_alg(3), _stack([-np.eye(4)], 4), 4, ['noncompact'])
    o13 = _stack([-np.eye(4), np.diag([-1., 1, 1, 1])], 4)
    _add('O13()', lorentz_alg(3), o13, 4, ['noncompact'])
    _add('Lorentz()', lorentz_alg(3), o13, 4, ['noncompact'])
    _add('SO11p()', lorentz_alg(1), None, 2, ['noncompact'])
    _add('O11()', lorentz_alg(1), _stack([-np.eye(2), np.diag([-1., 1])], 2), 2, ['noncompact'])
    for m in (1, 2, 3): _add(f'Sp({m})', sp_alg(m), None, 2 * m, ['noncompact'])
    for n in (2, 3, 4, 5, 6): _add(f'Z({n})', None, z_gens(n), n, ['finite', 'lazy'])
    for n in (2, 3, 4, 5, 6): _add(f'S({n})', None, s_gens(n), n, ['finite', 'lazy'])
    for n in (2, 3, 4): _add(f'SL({n})', sl_alg(n), None, n, ['noncompact'])
    for n in (1, 2, 3): _add(f'GL({n})', gl_alg(n), None, n, ['noncompact'])
    for n in (1, 2, 3): _add(f'U({n})', u_alg(n, False), None, n)
    for n in (2, 3): _add(f'SU({n})', u_alg(n, True), None, n)
    _add('Cube()', None, cube_gens(), 6, ['finite', 'lazy'])
    _add('RubiksCube()', None, rubiks_gens(), 48, ['finite', 'lazy'])
    for k, n in ((2, 2), (4, 2), (2, 3), (4, 3)): _add(f'ZksZnxZn({k},{n})', None, zkszn_gens(k, n), k * n * n, ['finite', 'lazy'])
    t = _table
    _add('SO2eR3()', *embed(t['SO(2)'].lie, t['SO(2)'].disc, 3, slice(2)), 3)
    _add('O2eR3()', *embed(t['O(2)'].lie, t['O(2)'].disc, 3, slice(2)), 3)
    for k in (1, 2, 3, 4, 6): _add(f'DkeR3({k})', *embed(t[f'D({k})'].lie, t[f'D({k})'].disc, 3, slice(2)), 3, ['finite'])
    for base, dd, a, b in (('SO(2)', 3, 0, 2), ('SO(2)', 3, 1, 3), ('SO(2)', 4, 1, 3), ('SO(2)', 4, 2, 4), ('SO(3)', 4, 1, 4), ('SO(3)', 4, 0, 3), ('SL(2)', 3, 1, 3), ('C(4)', 3, 1, 3), ('SO11p()', 3, 0, 2), ('SO11p()', 3, 1, 3), ('D(3)', 4, 1, 3)):
        l, h = embed(t[base].lie, t[base].disc, dd, slice(a, b))
        _add(f'Embed({base},{dd},{a}:{b})', l, h, dd, t[base].tags, ctor=f'G.Embed(G.{base},{dd},slice({a},{b}))')
    for a, b in (('SO(2)', 'S(2)'), ('Z(2)', 'SO(2)'), ('Z(2)', 'Z(3)'), ('S(2)', 'S(3)'), ('SL(2)', 'Z(2)'), ('SO(2)', 'SO11p()'), ('O(2)', 'SO(2)'), ('C(4)', 'S(2)'), ('U(1)', 'SU(2)')):
        l, h = dprod(t[a], t[b])
        _add(f'{a}x{b}', l, h, t[a].d * t[b].d, (t[a].tags & t[b].tags) | {'lazy'}, ctor=f'G.{a}*G.{b}')
    return _table


_extra, _mine = {}, {}


def custom_gens():
    """user-defined groups: name -> (lie, disc)"""
    X, Y, Z = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1. + 0j, -1])
    S = np.array([[1, .5 + .5j], [.3j, 1.2]])
    P = np.array([[1., .4, 0], [-.2, 1, .3], [.1, 0, .8]])
    cyc = np.roll(np.eye(3), 1, 0)
    return {'PauliY': (None, np.array([Y])),                                        # complex invariant vector
            'PauliXY': (None, np.array([X, Y])),
            'TorusXYZ': (np.array([1j * (.6 * X + .48 * Y + .64 * Z)]), None),      # complex commutant
            'SkewCplx': (None, np.array([S @ Z @ np.linalg.inv(S)])),               # complex, not unitary
            'PhaseCyc': (None, np.array([np.exp(2j * math.pi / 3) * cyc])),
            'SkewReal': (None, np.array([P @ np.diag([1., -1, 1]) @ np.linalg.inv(P)])),
            'SkewFlow': (np.array([P @ np.diag([1., -1, 0]) @ np.linalg.inv(P)]), None),
            'Shear': (np.array([np.array([[0., 1], [0, 0]])]), None),               # not semisimple
            'Mixed': (np.array([np.array([[0., 1, 0], [-1, 0, 0], [0, 0, .3]])]), np.array([np.diag([1., -1, -1])]))}


def near_gens():
    """user-defined groups that are almost orthogonal or almost permutations (flags only)"""
    out = {}
    c, J = np.roll(np.eye(3), 1, 0), np.array([[0., 1], [-1, 0]])
    for k, eps in (('2', 1e-2), ('3', 1e-3), ('4', 1e-4)):
        sh = np.array([[1., eps], [0, 1]])
        out['Dilate' + k] = (None, np.array([(1 + eps) * np.eye(2)]))
        out['Shear' + k] = (None, np.array([sh]))
        out['CycDil' + k] = (None, np.array([c, np.diag([1 + eps, 1, 1])]))
        out['AlmostRot' + k] = (np.array([J + eps * np.diag([1., 0])]), None)
        out['ManyRot' + k] = (np.array([J, 2 * J, 3 * J, eps * np.eye(2)]), None)
        out['TwistPerm' + k] = (None, np.array([np.eye(3)[[1, 0, 2]], ref3(eps) @ c]))
        out['FlowPerm' + k] = (np.array([eps * (c - c.T)]), np.array([c]))
    out['IntShear'] = (None, np.array([[[1., 1], [0, 1]]]))
    out['IntShear2'] = (None, np.array([[[1., 2], [0, 1]], [[0, 1.], [1, 0]]]))
    out['SwapFlip'] = (None, np.array([np.eye(3)[[1, 0, 2]], np.diag([1., 1, -1])]))
    out['FlipSwap'] = (None, np.array([np.diag([1., 1, -1]), np.eye(3)[[1, 0, 2]]]))
    out['SwapRot'] = (np.array([np.kron(np.diag([1., 0]), J)]), np.array([np.eye(4)[[0, 1, 3, 2]]]))
    return out


def ref3(eps):
    r = np.eye(3)
    r[:2, :2] = rot2(eps)
    return r


def mine(name):
    """an instance of a user's group class with these generators"""
    if name not in _mine:
        from emlp.groups import Group
        lie, disc = {**custom_gens(), **near_gens()}[name]

        class Mine(Group):
            def __init__(self):
                if disc is not None: self.discrete_generators = disc
                if lie is not None: self.lie_algebra = lie
                super().__init__()
        Mine.__name__ = Mine.__qualname__ = name
        _mine[name] = Mine
    return _mine[name]()


def extra_table():
    """Larger parameters and generators close to the identity (used where named only)."""
    if _extra: return _extra
    main = dict(table())
    for k in (12, 50, 200, 1000): _add(f'C({k})', None, _stack([rot2(2 * math.pi / k)], 2), 2, ['finite'])
    for k in (16, 300): _add(f'D({k})', None, _stack([rot2(2 * math.pi / k), np.diag([-1., 1])], 2), 2, ['finite'])
    for n in (6, 7): _add(f'SO({n})', so_alg(n), None, n)
    _add('O(6)', so_alg(6), _stack([np.diag([-1.] + [1.] * 5)], 6), 6)
    _add('Sp(4)', sp_alg(4), None, 8, ['noncompact'])
    for n in (8, 12): _add(f'Z({n})', None, z_gens(n), n, ['finite', 'lazy'])
    _add('S(8)', None, s_gens(8), 8, ['finite', 'lazy'])
    _add('SL(5)', sl_alg(5), None, 5, ['noncompact'])
    _add('GL(4)', gl_alg(4), None, 4, ['noncompact'])
    _add('U(4)', u_alg(4, False), None, 4)
    _add('SU(4)', u_alg(4, True), None, 4)
    l, h = embed(_table['C(200)'].lie, _table['C(200)'].disc, 3, slice(1, 3))
    _add('Embed(C(200),3,1:3)', l, h, 3, ['finite'], ctor='G.Embed(G.C(200),3,slice(1,3))')
    for k, (l, h) in custom_gens().items(): _add(k, l, h, len((h if l is None else l)[0]), ['noncompact', 'custom'], ctor=f"mine('{k}')")
    for k in [k for k in _table if k not in main]: _extra[k] = _table.pop(k)
    return _extra


def group(name):
    return table()[name] if name in table() else extra_table()[name]


# ------------------------------------------------------------------ expressions
# ('V',k) base rep of group number k ; ('1',) scalar ; ('T',e) ; ('+',a,b) ; ('*',a,b) ; ('**',e,n)
# ('n*',n,e) ; ('*n',e,n) ; ('+n',e,n) ; ('n+',n,e) ; ('>>',a,b) ; ('<<',a,b) ; ('tpq',p,q)
# An expression denotes a list of signed group words; ref evaluates it on dense matrices.

BIN = ('+', '*', '>>', '<<')


def show(e):
    k = e[0]
    if k == 'V': return 'V' if e[1] == 0 else f'W{e[1]}'
    if k == '1': return 'Scalar'
    if k == 'T': return f'{show(e[1])}.T'
    if k in BIN: return f'({show(e[1])}{k}{show(e[2])})'
    if k == '**': return f'{show(e[1])}**{e[2]}'
    if k == 'n*': return f'{e[1]}*{show(e[2])}'
    if k == '*n': return f'({show(e[1])}*{e[2]})'
    if k == '+n': return f'({show(e[1])}+{e[2]})'
    if k == 'n+': return f'({e[1]}+{show(e[2])})'
    if k == 'tpq': return f'T({e[1]},{e[2]})'
    raise ValueError(e)


def build(e, atoms, scalar=None, tpq=None):
    """Evaluate the expression with the library's own operators."""
    k = e[0]
    if k == 'V': return atoms[e[1]]
    if k == '1':
        if scalar is not None: return scalar
        import emlp.reps
        return emlp.reps.Scalar
    if k == 'tpq': return tpq(e[1], e[2])
    r = lambda x: build(x, atoms, scalar, tpq)
    if k == 'T': return r(e[1]).T
    if k == '+': return r(e[1]) + r(e[2])
    if k == '*': return r(e[1]) * r(e[2])
    if k == '>>': return r(e[1]) >> r(e[2])
    if k == '<<': return r(e[1]) << r(e[2])
    if k == '**': return r(e[1]) ** e[2]
    if k == 'n*': return e[1] * r(e[2])
    if k == '*n': return r(e[1]) * e[2]
    if k == '+n': return r(e[1]) + e[2]
    if k == 'n+': return e[1] + r(e[2])
    raise ValueError(e)


def desugar(e):
    """to nested ('V',k)/('V*',k)/('sum',[..])/('prod',[..]) keeping the written order"""
    k = e[0]
    if k == 'V': return e
    if k == '1': return ('prod', ())
    if k == 'tpq': return desugar(('*', ('**', ('V', 0), e[1]), ('**', ('T', ('V', 0)), e[2])))
    if k == 'T': return _dual(desugar(e[1]))
    if k == '+': return ('sum', (desugar(e[1]), desugar(e[2])))
    if k == '*': return ('prod', (desugar(e[1]), desugar(e[2])))
    if k == '>>': return ('prod', (desugar(e[2]), _dual(desugar(e[1]))))
    if k == '<<': return ('prod', (desugar(e[1]), _dual(desugar(e[2]))))
    if k == '**': return ('prod', (desugar(e[1]),) * e[2])
    if k == 'n*': return ('sum', (desugar(e[2]),) * e[1])
    if k == '*n': return ('sum', (desugar(e[1]),) * e[2])
    if k == '+n': return ('sum', (desugar(e[1]),) + (('prod', ()),) * e[2])
    if k == 'n+': return ('sum', (('prod', ()),) * e[1] + (desugar(e[2]),))
    raise ValueError(e)


def _dual(t):
    if t[0] == 'V': return ('V*', t[1])
    if t[0] == 'V*': return ('V', t[1])
    return (t[0], tuple(_dual(x) for x in t[1]))


def size(e, ds):
    return _size(desugar(e), ds)


def _size(t, ds):
    if t[0] in ('V', 'V*'): return ds[t[1]]
    s = [_size(x, ds) for x in t[1]]
    return sum(s) if t[0] == 'sum' else int(np.prod(s)) if s else 1


def rho(e, gs):
    """dense matrix of the expression for one element per group"""
    gi = [np.linalg.inv(g).T for g in gs]
    return _rho(desugar(e), gs, gi)


def _bd(ms):
    n = sum(m.shape[0] for m in ms)
    out = np.zeros((n, n), dtype=np.result_type(float, *[m.dtype for m in ms]))
    i = 0
    for m in ms:
        out[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    return out


def _rho(t, gs, gi):
    if t[0] == 'V': return gs[t[1]]
    if t[0] == 'V*': return gi[t[1]]
    ms = [_rho(x, gs, gi) for x in t[1]]
    if t[0] == 'sum': return _bd(ms)
    out = np.eye(1)
    for m in ms: out = np.kron(out, m)
    return out


def drho(e, As):
    return _drho(desugar(e), As)


def _drho(t, As):
    if t[0] == 'V': return As[t[1]]
    if t[0] == 'V*': return -As[t[1]].T
    ms = [_drho(x, As) for x in t[1]]
    if t[0] == 'sum': return _bd(ms)
    out = np.zeros((1, 1))
    for m in ms: out = np.kron(out, np.eye(len(m))) + np.kron(np.eye(len(out)), m)
    return out


def parts(e, ds):
    """The written parts: list of (indices into the vector, word) where word is a tuple of
    ('V'|'V*', k) factors; every sum is expanded, copies are separate parts."""
    return _parts(desugar(e), ds)


def _parts(t, ds):
    if t[0] in ('V', 'V*'): return [(np.arange(ds[t[1]]), (t,))]
    if t[0] == 'sum':
        out, off = [], 0
        for x in t[1]:
            out += [(i + off, w) for i, w in _parts(x, ds)]
            off += _size(x, ds)
        return out
    out = [(np.zeros(1, int), ())]
    for x in t[1]:
        n = _size(x, ds)
        out = [((i[:, None] * n + j[None]).reshape(-1), w + v) for i, w in out for j, v in _parts(x, ds)]
    return out


def constraints(e, groups):
    """stacked constraints of all groups independently (dense float64/complex128)"""
    t = desugar(e)
    ds = [g.d for g in groups]
    n = _size(t, ds)
    rows = []
    eyes = [np.eye(g.d) for g in groups]
    zeros = [np.zeros((g.d, g.d)) for g in groups]
    for k, g in enumerate(groups):
        for A in g.lie:
            As = list(zeros); As[k] = A
            rows.append(_drho(t, As))
        for h in g.disc:
            hs = list(eyes); hs[k] = h
            rows.append(_rho(t, hs, [np.linalg.inv(x).T for x in hs]) - np.eye(n))
    if not rows: rows = [np.zeros((1, n))]
    return np.concatenate(rows, 0)


def invariants(e, groups):
    """(C, B): constraint matrix and an orthonormal basis (n,r) of the true invariants"""
    C = constraints(e, groups)
    return C, nullspace(C)


def nullspace(C):
    n = C.shape[1]
    M = C.conj().T @ C if C.shape[0] > 2 * n else None
    if M is not None:
        w, v = np.linalg.eigh(M)
        return v[:, w < 1e-9 * max(1., w.max() if len(w) else 1.)]
    U, S, Vh = np.linalg.svd(C, full_matrices=True)
    r = int((S > 1e-8 * max(1., S.max() if len(S) else 1.)).sum())
    return Vh[r:].conj().T


# ------------------------------------------------------------------ enumeration
def level(atoms, prev_all, prev_last, unary=True, binops=('+', '*')):
    out = []
    for a in prev_last:
        if unary:
            out += [('T', a), ('n*', 2, a), ('+n', a, 1), ('n+', 1, a), ('**', a, 2)]
    last = set(prev_last)
    for a in prev_all:
        for b in prev_all:
            if a in last or b in last:
                for op in binops: out.append((op, a, b))
    return out


def _atoms_only(e):
    return all(not isinstance(x, tuple) for x in e[1:])


def enumerate_exprs(depth, atoms=(('V', 0), ('T', ('V', 0)), ('1',)), binops=('+', '*'), unary=True, light_last=False):
    """All expressions with operator nesting depth <= depth over the alphabet, simplest first.
    light_last: the last level combines the previous level with atoms only (left and right)."""
    allx = list(atoms)
    last = list(atoms)
    for k in range(depth):
        if light_last and k == depth - 1 and k > 0:
            nxt = []
            for a in last:
                if unary: nxt += [('T', a), ('n*', 2, a), ('+n', a, 1), ('n+', 1, a), ('**', a, 2)]
                for b in atoms:
                    for op in binops:
                        nxt += [(op, a, b), (op, b, a)]
        else:
            nxt = level(atoms, allx, last, unary, binops)
        seen = set(allx)
        nxt = [x for x in dict.fromkeys(nxt) if x not in seen]
        allx += nxt
        last = nxt
    return allx
