"""C23: the equivariance error is zero exactly for equivariant maps."""
import numpy as np
from mc import ref, lib

RULE = ('The group\'s samples are answered by the harness: for every generator and generic element g the five samples are all g, or four identities and g at '
        'each of the five positions. For every representation pair of the list every elementary matrix E_ij, every equivariant matrix plus E_ij, every basis '
        'column, the whole basis, bases with one column replaced, negated/scaled versions (1e-3..1e4) are given to equivariance_error, and the answer compared '
        'with the residual |W rho_in(g) - rho_out(g) W| computed from the definition in float64.')
ASSUMPTIONS = ['near zero: <1e-3 where the exact residual is <1e-7 relative; bounded away: >= 1/12 of the exact relative residual; nothing is asserted in between or for '
               'matrices much smaller than the distance of the samples from the identity (the documented scale adjustment)']
BUDGET = {'quick': 300, 'thorough': 1800}

v, t, one = ('V', 0), ('T', ('V', 0)), ('1',)
PAIRS = [(v, v), (one, v), (v, one), (v, t), (t, v), (('+', one, v), v), (v, ('*', v, v)), (('+', v, t), ('+', v, one)), (('*', v, t), one),
         (('*', v, t), ('*', v, t)), (('n*', 2, v), ('n*', 2, v)), (one, one), (('+', v, ('+', one, v)), ('+', one, v))]


def plan(tier):
    names = lib.allgroups(3 if tier == 'quick' else 5)
    names += [n for n in ('SO13p()', 'Z(4)', 'SU(4)', 'Sp(2)') if n not in names and n in ref.table()]
    k = 24
    return [('run', dict(names=names[i::k], tier=tier)) for i in range(k)]


class Answer:
    """makes a group answer its samples with the given elements"""
    def __init__(self, G): self.G, self.n = G, 0

    def set(self, gs):
        self.gs = np.asarray(gs)
        self.G.samples = self.samples
        self.G.sample = self.sample
        self.i = 0

    def samples(self, N):
        import jax.numpy as jnp
        self.n += 1
        return jnp.asarray(self.gs[np.arange(N) % len(self.gs)])

    def sample(self):
        import jax.numpy as jnp
        self.n += 1
        self.i += 1
        return jnp.asarray(self.gs[(self.i - 1) % len(self.gs)])


def residual(W, a, b, gs):
    """(error, scale) over all matrices W (r,o,i) and samples, from the definition"""
    L = [W @ ref.rho(a, [g]) for g in gs]
    R = [ref.rho(b, [g]) @ W for g in gs]
    L, R = np.array(L), np.array(R)
    rms = lambda x: np.sqrt(np.mean(np.abs(x) ** 2))
    dist = rms(np.array(gs) - np.eye(gs[0].shape[0]))
    return rms(L - R), max(rms(L) + rms(R), dist, 1e-7), rms(L) + rms(R), dist


def run(ctx, names, tier):
    for n in names:
        g = ref.group(n)
        G = g.make()
        ans = Answer(G)
        elems = g.gens()[:6] + g.elems(2)
        elems = [np.asarray(h, complex if g.complex else float) for h in elems]
        if g.complex: G_dt = np.complex64
        else: G_dt = np.float32
        I = np.eye(g.d)
        lim = (27 if g.d <= 2 else 18) if tier == 'quick' else 150
        for a, b in PAIRS:
            na, nb = ref.size(a, [g.d]), ref.size(b, [g.d])
            if na * nb > lim: continue
            name = f'{n}: {ref.show(a)} -> {ref.show(b)}'
            with ctx.scenario(name) as s:
                if not s: continue
                ctx.state(name)
                repa, repb = lib.build(a, G), lib.build(b, G)
                Q = ref.invariants(('>>', a, b), [g])[1]
                one_pair(ctx, s, g, G, ans, elems, I, a, b, repa, repb, na, nb, Q, G_dt, tier)


def one_pair(ctx, s, g, G, ans, elems, I, a, b, repa, repb, na, nb, Q, dt, tier):
    import jax.numpy as jnp
    from emlp.reps import equivariance_error
    Q = np.asarray(Q)
    Q = Q if Q.ndim == 2 else Q.reshape(na * nb, -1)
    r = Q.shape[1]
    mats = []          # (label, array given, (r,o,i))
    for i in range(nb):
        for j in range(na):
            E = np.zeros((nb, na)); E[i, j] = 1
            mats.append((f'E{i},{j}', E))
    for k in range(r): mats.append((f'basis {k}', Q[:, k].reshape(nb, na)))
    if r:
        mats.append(('basis', Q))
        mats.append(('mixed basis', Q @ lib.probe(r, r + 1)))
        c = (Q @ lib.probe(r)).reshape(nb, na)
        c = c / (np.abs(c).max() + 1e-9)
        for sc in (1e-3, 1., 1e4): mats.append((f'solution*{sc:g}', c * sc))
        for i in range(nb):
            for j in range(na):
                E = np.zeros((nb, na)); E[i, j] = .5
                if tier != 'quick' or (i + j) % 2 == 0: mats.append((f'solution+E{i},{j}/2', c + E))
        for k in range(r):
            B = Q.copy(); B[:, k] = lib.probe(na * nb); mats.append((f'basis, column {k} replaced', B))
        mats.append(('basis and one more', np.concatenate([Q, lib.probe(na * nb)[:, None] / np.sqrt(na * nb)], 1)))
    gen = lib.probe(na * nb).reshape(nb, na)
    for sc in (1., -1., 1e4): mats.append((f'generic*{sc:g}', gen * sc))
    mats += [('generic pair', lib.probe(na * nb, 2)), ('all ones', np.ones((nb, na))), ('zero', np.zeros((nb, na)))]
    m = len(elems)
    for mi, (label, W) in enumerate(mats):
        full = label.startswith(('E0,0', 'basis', 'generic*1', 'solution*1'))
        # which sample answers: all the same element / one element among identities at every position
        if full and tier != 'quick': tuples = [[h] * 5 for h in elems] + [[I] * p + [h] + [I] * (4 - p) for h in elems[:3] for p in range(5)]
        elif full and na * nb <= 9: tuples = [[h] * 5 for h in elems[-2:]] + [[I] * p + [elems[-1]] + [I] * (4 - p) for p in range(5)] + [[I] * 5, (elems * 5)[:5]]
        else: tuples = [[elems[mi % m if mi % 2 else -1]] * 5, [I] * (mi % 5) + [elems[(mi // 2) % m]] + [I] * (4 - mi % 5)]
        Wr = (W.reshape(nb, na, -1)).transpose(2, 0, 1)
        for ti, gs in enumerate(tuples):
            gsf = np.array([x + np.zeros((g.d, g.d), dt) for x in gs]).astype(dt)
            ans.set(gsf)
            n0 = ans.n
            e = equivariance_error(jnp.asarray(lib.f32(W)), repa, repb, G)
            s.step()
            e = np.asarray(e)
            if not s.check(np.all(np.isfinite(e)) and np.isrealobj(e) and np.all(e >= 0), f'{label}: error {e}'): return
            # the answer covers all matrices and samples, possibly as several numbers
            e = float(e.max())
            err, scale, tsc, dist = residual(Wr, a, b, [x.astype(complex if g.complex else float) for x in gsf])
            rel = err / scale
            if ans.n == n0:
                s.check(err > 1e-7 * scale or e < 1e-3, f'{label}: equivariant, but error {e:.3g} (own samples)')
                continue
            if rel < 2e-6: s.check(e < 1e-3, f'{label}: equivariant under the samples (exact residual {rel:.1e}), but error {e:.3g}; samples {ti}')
            elif rel > 1e-3: s.check(e > rel / 12, f'{label}: not equivariant (exact relative residual {rel:.3g}), but error {e:.3g}; samples {ti}')
            ctx.outcome('zero' if rel < 2e-6 else 'pos' if rel > 1e-3 else 'between', e < 1e-3)
