"""C16: gated nonlinearities are equivariant and gate each part with its own scalar."""
import numpy as np
from mc import ref, lib, seams, nets, customs
from mc.checks import c06_mixed

RULE = ('Every representation expression of the family x groups (single and mixed) x hash orders x frameworks: gated(rep) must be the representation followed by one '
        'scalar per non-scalar non-permutation part; every single input coordinate is perturbed and exactly the documented outputs may react (this decides which gate '
        'belongs to which channel for all inputs), the values must be sigmoid(gate)*value and swish pointwise, and the map commutes with every generator and a generic '
        'element; all batch shapes agree row by row.')
ASSUMPTIONS = ['the nonlinearity acts on each channel as sigmoid(one coordinate)*channel (the coordinate is identified by perturbing every coordinate)']
MIX = [('SL(2)', 'S(2)'), ('Z(3)', 'SO(2)'), ('O(2)', 'SO(2)'), ('S(2)', 'Z(2)')]
TRI = [('SL(2)', 'S(2)', 'SO(2)')]


def plan(tier):
    q = tier == 'quick'
    out = []
    spec = [('d1', 40, lib.allgroups(8), 1), ('mult', 30, ['SL(2)', 'S(2)', 'O(2)', 'S(3)', 'Trivial(2)', 'GL(1)'], 3), ('d2s', 24, ['SL(2)', 'S(2)', 'Trivial(2)'], 4)] if q else \
        [('d1', 260, lib.allgroups(8), 2), ('mult', 81, ['SL(2)', 'S(2)', 'O(2)', 'SO11p()', 'S(3)', 'SL(3)', 'SO(3)', 'Trivial(2)', 'GL(1)', 'O(1)'], 4), ('d2', 64, ['SL(2)', 'S(2)', 'U(2)', 'Scaling(2)', 'C(3)'], 8),
         ('d2s', 81, ['SO(3)', 'SL(3)', 'S(3)', 'Trivial(2)'], 8), ('d3s', 40, ['SL(2)'], 16)]
    for f, kw in lib.shards('single', spec): out.append((f, dict(fw='objax', salt=0, **kw)))
    for salt in ((1,) if q else (1, 2, 3, 5)):
        for f, kw in lib.shards('single', [('mult', 24 if q else 60, ['SL(2)', 'S(3)'], 1 if q else 3), ('d2s', 12 if q else 36, ['SL(2)'], 1 if q else 4)]): out.append((f, dict(fw='objax', salt=salt, **kw)))
    for fw in nets.FRAMEWORKS[1:]:
        for f, kw in lib.shards('single', [('mult', 16 if q else 64, ['SL(2)', 'S(3)'], 1 if q else 2), ('d1', 20 if q else 81, ['SL(2)', 'S(2)', 'O(3)', 'Trivial(2)'], 1)]): out.append((f, dict(fw=fw, salt=0, **kw)))
        out.append(('mixed', dict(fw=fw, groups=MIX[0], salt=0, level=1, maxsize=14 if q else 36)))
    for p in MIX:
        for salt in ((0, 1) if q else range(6)): out.append(('mixed', dict(fw='objax', groups=p, salt=salt, level=1 if q else 2, maxsize=16 if q else 48)))
    for p in TRI: out.append(('mixed', dict(fw='objax', groups=p, salt=0, level=1, maxsize=16 if q else 36)))
    out.append(('custom', dict(maxsize=16 if q else 40)))
    return out


def single(ctx, fw, salt, **kw):
    lib.run_family(ctx, lambda c, s, G, g, e, rep: one(c, s, fw, rep, [g], e), salt=salt, **kw)


def mixed(ctx, fw, groups, salt, level, maxsize):
    gs = [ref.group(g) for g in groups]
    Gs = [g.make() for g in gs]
    es = c06_mixed.mixed_exprs(gs, level, maxsize)
    es.sort(key=lambda e: str(lib.terms(e)))
    seams.set_salt(salt)
    for e in es:
        with ctx.scenario(f'{fw} {",".join(groups)}: {ref.show(e)} salt{salt}') as s:
            if not s: continue
            ctx.state(s.name); s.step()
            one(ctx, s, fw, lib.build(e, *Gs), gs, e)
    seams.set_salt(0)


def layer(fw, rep):
    m = nets.module(fw)
    l = m.GatedNonlinearity(rep)
    if fw == 'flax': return lambda x: np.asarray(l.apply({}, np.asarray(x, np.float32)))
    if fw == 'torch':
        import torch
        return lambda x: l(torch.from_numpy(np.array(x, np.float32))).detach().numpy()
    import jax.numpy as jnp
    return lambda x: np.asarray(l(jnp.asarray(np.asarray(x, np.float32))))


def sig(x): return 1 / (1 + np.exp(-x))


def one(ctx, s, fw, rep, gs, e):
    ds = [g.d for g in gs]
    n = ref.size(e, ds)
    if n == 0: return
    # permutation parts: every factor belongs to a permutation group
    parts = [(idx, w) for idx, w in ref.parts(e, ds)]
    pw = [(idx, len(w) == 0 or all(gs[f[1]].permutation() for f in w)) for idx, w in parts]
    rhos = None
    if not any(g.complex for g in gs): rhos = [(h, ref.rho(e, h)) for h in lib.gen_tuples(gs)]
    core(ctx, s, fw, rep, n, pw, rhos, gs)


ds_seen = set()      # batch shapes are checked once per size


def core(ctx, s, fw, rep, n, parts, rhos, gs):
    m = nets.module('objax')
    m_gates = sum(1 for _, free in parts if not free)
    grep = m.gated(rep)
    if not s.check(grep.size() == n + m_gates, f'gated({rep}) has size {grep.size()} instead of {n}+{m_gates}'): return
    f = layer(fw, rep)
    N = n + m_gates
    v = .3 + np.abs(lib.probe(N))
    rows = np.repeat(v[None], N + 1, 0)
    rows[np.arange(N), np.arange(N)] += .8
    X = lib.probe(N, 7, t=3).T * 3
    X[5] = 0
    todo = [rows, X]
    if rhos is not None:
        X4 = X[:4].astype(np.float32)
        todo += [np.concatenate([X4[:, :n] @ R.T, X4[:, n:]], 1) for h, R in rhos]
    allrows = np.concatenate(todo)
    k = len(allrows)
    yall = f(np.concatenate([allrows, np.zeros((-k % 40, N))]))      # padded: fewer shapes to compile
    y = yall[:N + 1]
    s.step(N)
    if not s.check(yall.shape == (k + -k % 40, n), f'output of shape {yall.shape} for {n} channels'): return
    react = np.abs(y[:N] - y[N]) > 1e-6            # react[j, i]: output i reacts to coordinate j
    gate = np.arange(n)
    used = []
    for idx, free in parts:
        for i in idx:
            src = np.where(react[:, i])[0]
            if free:
                if not s.check(src.tolist() == [i], f'scalar/permutation channel {i} depends on coordinates {src}'): return
            else:
                other = [j for j in src if j != i]
                if not s.check(i in src and len(other) == 1 and other[0] >= n, f'channel {i} depends on coordinates {src}'): return
                gate[i] = other[0]
        if not free:
            if not s.check(len(set(gate[idx].tolist())) == 1, f'part {idx} uses several gates {gate[idx]}'): return
            used.append(int(gate[idx[0]]))
    if not s.check(sorted(used) == list(range(n, N)), f'gates are not used once each: {used}'): return
    ctx.outcome(gate.tolist())
    # documented values for generic inputs of both signs
    want = sig(X[:, gate]) * X[:, :n]
    yX = yall[N + 1:N + 8]
    s.close(yX, want, 'sigmoid(gate)*value')
    # the gated representation: the original followed by scalars
    if rhos is not None:
        for t, (h, R) in enumerate(rhos):
            s.step()
            if all(x.d <= 8 for x in gs) and len(gs) == 1:
                got = np.asarray(grep.rho_dense(lib.jn(h[0])))
                GR = np.eye(N); GR[:n, :n] = R
                s.close(got, GR, 'gated(rep).rho is the original followed by scalars')
            o = N + 8 + 4 * t
            s.close(yall[o:o + 4], yX[:4] @ R.T, 'f(g x) = g f(x)')
    if (fw, n, N) in ds_seen and ctx.only is None: return
    ds_seen.add((fw, n, N))
    for sh in ((), (1,), (2, 3)):
        k = int(np.prod(sh))
        s.close(f(X[:k].reshape(sh + (N,))), want[:k].reshape(sh + (n,)), f'batch shape {sh}')
    ctx.sample({'rep': str(rep), 'gates': gate.tolist()})


def custom(ctx, maxsize):
    """user representations (rho and name only) on their own and in sums and products with built-in ones"""
    import emlp.reps as R
    for gname in ('SL(2)', 'O(2)', 'S(3)', 'SO11p()'):
        g = ref.group(gname)
        G = g.make()
        V, S = R.V(G), R.Scalar
        for cn, mk in customs.REPS.items():
            F = customs.REFS[cn]
            c = mk(G)
            k = len(F(np.eye(g.d)))
            forms = {
                'c': (lambda: c, lambda M: [F(M)]),
                'c+V': (lambda: c + V, lambda M: [F(M), M]),
                'V+c': (lambda: V + c, lambda M: [M, F(M)]),
                'V+c+S': (lambda: V + c + S, lambda M: [M, F(M), np.eye(1)]),
                '2*c+S+V': (lambda: 2 * c + S + V, lambda M: [F(M), F(M), np.eye(1), M]),
                'S+c*V+c': (lambda: S + c * V + c, lambda M: [np.eye(1), np.kron(F(M), M), F(M)]),
                'V*(c+V)': (lambda: V * (c + V), None),
            }
            for form, (mkrep, fr) in forms.items():
                with ctx.scenario(f'{gname} custom {cn}: {form}') as s:
                    if not s: continue
                    ctx.state(s.name); s.step()
                    rep = mkrep()
                    if rep.size() > maxsize: continue
                    perm = g.permutation()
                    if fr is None: continue_parts(ctx, s, rep, g, F, k)
                    else:
                        blocks = fr(np.eye(g.d))
                        parts, o = [], 0
                        names = {'V': perm, 'S': True}
                        for b, nm in zip(blocks, order(form)):
                            parts.append((np.arange(o, o + len(b)), names.get(nm, False)))
                            o += len(b)
                        rh = [([h], ref._bd(fr(h))) for h in g.tests()]
                        core(ctx, s, 'objax', rep, o, parts, rh, [g])


def order(form):
    out = []
    for t in form.split('+'):
        if t.startswith('2*'): out += [t[2:]] * 2
        else: out.append(t)
    return out


def continue_parts(ctx, s, rep, g, F, k):
    """V*(c+V): the parts interleave"""
    d = g.d
    n = d * (k + d)
    i1 = (np.arange(d)[:, None] * (k + d) + np.arange(k)[None]).reshape(-1)
    i2 = (np.arange(d)[:, None] * (k + d) + k + np.arange(d)[None]).reshape(-1)
    rh = [([h], np.kron(h, ref._bd([F(h), h]))) for h in g.tests()]
    core(ctx, s, 'objax', rep, n, [(i1, False), (i2, g.permutation())], rh, [g])
