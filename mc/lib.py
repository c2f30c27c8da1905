"""Helpers shared by the check modules: expression families, dense views of library objects."""
import numpy as np
from . import ref

_sets = {}


def expr_set(name):
    """Named, completely enumerated expression families (simplest first)."""
    if name not in _sets:
        at = (('V', 0), ('T', ('V', 0)), ('1',))
        _sets[name] = {
            'mult': mult_set,
            'deep': deep_set,
            'd1': lambda: ref.enumerate_exprs(1, at),
            'd2s': lambda: ref.enumerate_exprs(2, at, unary=False),
            'd2o': lambda: ref.enumerate_exprs(2, (('V', 0), ('1',)), unary=True),   # no explicit dual: orthogonal groups
            'd2': lambda: ref.enumerate_exprs(2, at),
            'd3': lambda: ref.enumerate_exprs(3, at, light_last=True),
            'd3s': lambda: ref.enumerate_exprs(3, at, unary=False, light_last=True),
        }[name]()
    return _sets[name]


def mult_set():
    """Multiplicities and powers up to 4, counts on both sides, T(p,q), three-term sums in every order."""
    v, s = ('V', 0), ('1',)
    t = ('T', v)
    vv, vt = ('*', v, v), ('*', v, t)
    out = []
    for x in (v, t, s, vv, vt, ('+', v, s), ('+', v, t)):
        for n in (1, 2, 3, 4): out += [('n*', n, x), ('*n', x, n), ('+n', x, n), ('n+', n, x)]
    for x in (v, t, ('+', v, s), ('+', s, v)):
        for n in (0, 1, 2, 3, 4): out.append(('**', x, n))
    out += [('tpq', p, q) for p in range(5) for q in range(5) if p + q <= 4]
    import itertools
    pieces = [('n*', 3, v), ('n*', 2, t), s, vv, ('n*', 3, s), v, ('*', t, v)]
    for a, b, c in itertools.permutations(pieces, 3): out.append(('+', ('+', a, b), c))
    for a in (('n*', 3, v), ('+', ('n*', 2, v), ('n*', 3, t)), ('+', s, ('n*', 3, v)), ('+', t, ('n*', 2, s))):
        for b in (v, t, ('n*', 2, v), ('+', ('n*', 3, s), t), ('+', v, ('+', s, t))):
            out += [('*', a, b), ('*', b, a), ('T', ('*', a, b)), ('>>', a, b), ('<<', a, b)]
    return list(dict.fromkeys(out))


def deep_set():
    """Products of three and four factors: all words in V and V* with every bracketing and the dual taken at every level,
    products of three sums in every order."""
    import itertools
    v, t, s = ('V', 0), ('T', ('V', 0)), ('1',)
    m, T = (lambda a, b: ('*', a, b)), (lambda a: ('T', a))
    out = []
    for a, b, c in itertools.product((v, t), repeat=3):
        for x in (m(m(a, b), c), m(a, m(b, c)), m(T(m(a, b)), c), m(a, T(m(b, c)))): out += [x, T(x)]
    for a, b, c, d in itertools.product((v, t), repeat=4):
        for x in (m(m(m(a, b), c), d), m(m(a, b), m(c, d)), m(a, m(b, m(c, d))), m(T(m(m(a, b), c)), d), m(a, T(m(b, m(c, d)))),
                  m(T(m(a, b)), m(c, d)), ('>>', m(a, b), m(c, d))): out += [x, T(x)]
    f = (v, t, ('+', v, s), ('+', s, t), ('+', t, v), ('n*', 2, v), m(t, v))
    for a, b, c in itertools.product(f, repeat=3):
        x = m(m(a, b), c)
        out += [x, T(x), m(a, m(b, c)), m(T(m(a, b)), c)]
    return list(dict.fromkeys(out))


def terms(e):
    """The canonical multiset of products the expression expands to (used only to group equal shapes)."""
    def ex(t):
        if t[0] in ('V', 'V*'): return [((t[0], t[1]),)]
        if t[0] == 'sum': return [w for x in t[1] for w in ex(x)]
        out = [()]
        for x in t[1]:
            out = [a + b for a in out for b in ex(x)]
        return out
    return tuple(sorted(tuple(sorted(w)) for w in ex(ref.desugar(e))))


def shards(func, spec, nshard_per_item=8, **kw):
    """spec: list of (expression set, max size, [groups], number of chunks)."""
    out = []
    for name, maxsize, groups, n in spec:
        byd = {}
        for g in groups: byd.setdefault(ref.group(g).d, []).append(g)
        for d, gs in sorted(byd.items()):
            for i in range(n):
                out.append((func, dict(exprs=name, maxsize=maxsize, groups=gs, chunk=[i, n], **kw)))
    return out


def cases(exprs, maxsize, groups, chunk):
    """(group, expression) pairs of a shard; expressions with the same shapes are kept together."""
    gs = [ref.group(g) for g in groups]
    d = gs[0].d
    es = [e for e in expr_set(exprs) if ref.size(e, [d]) <= maxsize]
    key = {e: terms(e) for e in es}
    es.sort(key=lambda e: (len(str(key[e])), str(key[e])))      # stable
    i, n = chunk
    lo, hi = len(es) * i // n, len(es) * (i + 1) // n
    for e in es[lo:hi]:
        for g in gs:
            if exprs.endswith('o') and not g.orthogonal(): continue
            yield g, e


def std_spec(tier, big=36, d1max=64, small=False):
    """The expression/group space shared by the checks on single-group representations:
    (expression set, max size, groups, chunks)."""
    gs = allgroups(48)
    core2 = ['SL(2)', 'SO11p()', 'S(2)', 'U(2)', 'Scaling(2)', 'C(3)']
    core3 = ['SO(3)', 'SL(3)', 'S(3)', 'SO2eR3()', 'Z(3)', 'Embed(SL(2),3,1:3)']
    mgs = ['SL(2)', 'S(2)', 'U(2)', 'O(2)', 'SO11p()', 'S(3)', 'SL(3)', 'SO(3)', 'GL(1)', 'Scaling(1)', 'O(1)']
    if tier == 'quick':
        if small: return [('d1', d1max, gs, 1), ('mult', big, ['SL(2)', 'S(2)', 'U(2)', 'S(3)'], 4), ('d2s', 16, ['SL(2)', 'S(2)'], 6), ('deep', 18, ['SL(2)', 'U(2)'], 6)]
        return [('d1', d1max, gs, 1), ('mult', big, mgs, 4), ('d2s', big, core2[:4], 8), ('d2s', min(big, 30), core3[:3], 6), ('deep', 18, ['SL(2)', 'U(2)'], 6)]
    if small: return [('d1', 4 * d1max, gs, 2), ('mult', 81, mgs, 6), ('d2', 48, core2, 10), ('d2s', 64, core3, 10), ('deep', 36, ['SL(2)', 'U(2)', 'SO11p()', 'S(2)'], 10), ('deep', 81, ['SL(3)'], 8)]
    return [('d1', 4 * d1max, gs, 2), ('mult', 81, mgs, 6), ('d2', 64, core2, 12), ('d2s', 81, core3, 12), ('d3s', 48, ['SL(2)', 'S(2)'], 24), ('deep', 64, ['SL(2)', 'U(2)', 'SO11p()', 'S(2)'], 10), ('deep', 81, ['SL(3)', 'Z(3)'], 8)]


def probe(n, k=None, cplx=False, t=0):
    """fixed generic vectors/matrices (no randomness)"""
    m = n * (k or 1)
    i = np.arange(1, m + 1)
    v = np.cos(1.3 * i + .7 * t + .011 * i * i) + .2 * np.sin(2.9 * i + t)
    if cplx: v = v + 1j * np.sin(.9 * i + .4 + t)
    return v.reshape(n, k) if k else v


def dense(x):
    return np.asarray(x.to_dense() if hasattr(x, 'to_dense') else x)


def V(G):
    import emlp.reps as R
    return R.V(G)


def f32(a):
    a = np.asarray(a)
    return a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)


def jn(a):
    import jax.numpy as jnp
    return jnp.asarray(f32(a))


def allgroups(maxd=8, tags=(), notags=()):
    return [n for n, g in ref.table().items() if g.d <= maxd and all(t in g.tags for t in tags) and not any(t in g.tags for t in notags)]


def build(e, *Gs):
    """the expression on the library's objects for concrete groups"""
    import emlp.reps as R
    return ref.build(e, [R.V(G) for G in Gs], tpq=lambda p, q: R.T(p, q, Gs[0]))


def run_family(ctx, fn, exprs, maxsize, groups, chunk, salt=0, skip=None):
    """fn(ctx, s, G, g, e, rep) for every (group, expression) of the shard"""
    from . import seams
    if salt: seams.set_salt(salt)
    made = {g: ref.group(g).make() for g in groups}
    for g, e in cases(exprs, maxsize, groups, chunk):
        if skip is not None and skip(g, e): continue
        name = f'{g.name}: {ref.show(e)}' + (f' salt{salt}' if salt else '')
        with ctx.scenario(name) as s:
            if not s: continue
            rep = build(e, made[g.name])
            s.step()
            ctx.state(name)
            fn(ctx, s, made[g.name], g, e, rep)
    if salt: seams.set_salt(0)


def gen_tuples(gs):
    """tuples of elements, one per group, generating the product group, plus one generic tuple"""
    out = []
    for k, g in enumerate(gs):
        for h in g.gens():
            t = [np.eye(x.d) for x in gs]
            t[k] = h
            out.append(t)
    out.append([g.elems(2)[1] for g in gs])
    return out
