"""C24: the Hamiltonian experiment code integrates true, symmetric Hamiltonian dynamics."""
import itertools
import numpy as np
from scipy.linalg import expm
from mc import ref, lib, hd

RULE = ('J on every basis vector and batch shape; hamiltonian_dynamics on every monomial Hamiltonian of degree <= 3 (<= 2 for the larger state spaces), which '
        'determines it on all polynomials of that degree; flows of every quadratic Hamiltonian with coefficients in {-1,0,1} (one particle) and every elementary '
        'one (two, three particles) against the exact exponential, single against batched against generic ODE, for every batch size and time grid of the list; '
        'pendulum Hamiltonian, rollouts and reps under every generator and a closed list of group elements; datasets for every (n_systems, chunk length, dt, '
        'integration time) of the list with all chunk choices np.random.randint can make enumerated.')
ASSUMPTIONS = ['rollouts are compared at the accuracy of the integrator\'s tolerance (relative 1e-4 per step; compared at 1e-2)',
               'chunk choices are drawn through np.random.randint (otherwise they are sampled; contiguity is still decided for every returned chunk)']
BUDGET = {'quick': 300, 'thorough': 1800}


def plan(tier):
    out = [('rollout_errors', dict(kind=kind, bs=bs, tier=tier)) for kind, bs in ((('free', 5), ('osc', 2), ('SHO', 5)) if tier == 'quick' else itertools.product(('free', 'osc', 'SHO'), (1, 2, 5)))]
    out += [('chunks', dict(part=i, parts=12, tier=tier)) for i in range(12)]
    out += [('symplectic', dict(tier=tier))]
    out += [('dynamics', dict(d=d, tier=tier)) for d in (1, 2, 3)]
    k = 10 if tier == 'quick' else 16
    out += [('flows', dict(part=i, parts=k, tier=tier)) for i in range(k)]
    out += [('pendulum', dict(part=i, parts=4, tier=tier)) for i in range(4)]
    out += [('sizes', dict(part=i, parts=3, tier=tier)) for i in range(3)]
    return out


def J(n):
    d = n // 2
    return np.block([[np.zeros((d, d)), np.eye(d)], [-np.eye(d), np.zeros((d, d))]])


def symplectic(ctx, tier):
    import jax.numpy as jnp
    h = hd.load()
    for d in range(1, 7):
        n = 2 * d
        for shape in [(), (1,), (3,), (2, 3), (1, 2, 2)]:
            with ctx.scenario(f'J, state dim {n}, batch {shape}') as s:
                if not s: continue
                ctx.state(d, shape)
                m = int(np.prod(shape, dtype=int))
                for i in range(n):
                    z = np.zeros((m, n)); z[np.arange(m), i] = 1 + np.arange(m)
                    got = np.asarray(h.symplectic_form(jnp.asarray(z.reshape(shape + (n,)))))
                    s.step()
                    s.close(got, (z @ J(n).T).reshape(shape + (n,)), f'J e_{i}', tol=1e-6)
                    q, p = h.unpack(jnp.asarray(z.reshape(shape + (n,))))
                    s.close(q, z[:, :d].reshape(shape + (d,)), 'position part', tol=0)
                    s.close(p, z[:, d:].reshape(shape + (d,)), 'momentum part', tol=0)
                    s.close(h.pack(q, p), z.reshape(shape + (n,)), 'pack(unpack)', tol=0)


def dynamics(ctx, d, tier):
    import jax.numpy as jnp
    h = hd.load()
    n = 2 * d
    maxdeg = 4 if d == 1 else 3 if d == 2 or tier != 'quick' else 2
    pts = [lib.probe(n, t=t) for t in range(3)] + [np.zeros(n)] + [np.eye(n)[i] for i in range(n)]
    for deg in range(maxdeg + 1):
        for idx in itertools.combinations_with_replacement(range(n), deg):
            with ctx.scenario(f'H=' + ('*'.join(f'z{i}' for i in idx) or '1')) as s:
                if not s: continue
                ctx.state(d, idx)

                def H(z, idx=idx):
                    out = jnp.ones(()) + 0 * z.sum()
                    for i in idx: out = out * z[i]
                    return out
                for z in pts:
                    g = np.zeros(n)
                    for k in range(deg):
                        rest = idx[:k] + idx[k + 1:]
                        g[idx[k]] += np.prod([z[i] for i in rest])
                    for t in (0., 3.):
                        got = np.asarray(h.hamiltonian_dynamics(H, jnp.asarray(z, jnp.float32), t))
                        s.step()
                        s.close(got, J(n) @ g, f'dynamics at {np.round(z, 2)}', tol=1e-5)


def quadratics(tier):
    out = []
    for a, b, c in itertools.product((-1, 0, 1), repeat=3): out.append((f'1 particle [{a},{b},{c}]', np.array([[a, b], [b, c]], float)))
    for d in (2, 3):
        n = 2 * d
        for i in range(n):
            for j in range(i, n):
                if tier == 'quick' and d == 3 and (i + j) % 3: continue
                S = np.zeros((n, n)); S[i, j] += .5; S[j, i] += .5
                out.append((f'{d} particles z{i}z{j}', S * (2 if i == j else 1)))
        K = np.diag(np.r_[1 + np.arange(d), np.ones(d)]) + .3 * np.ones((n, n))
        out.append((f'{d} coupled oscillators', K))
    return out


GRIDS = [('uniform', np.arange(0, 1.6, .2)), ('two points', np.array([0., .7])), ('uneven', np.array([0., .1, .15, .9, 1.3, 2.])), ('late start', np.array([1., 1.3, 2.1]))]


def flows(ctx, part, parts, tier):
    import jax.numpy as jnp
    h = hd.load()
    for k, (name, S) in list(enumerate(quadratics(tier)))[part::parts]:
        n = len(S)
        A = J(n) @ S
        H = lambda z: .5 * (z * (jnp.asarray(S, jnp.float32) @ z)).sum()
        dyn = lambda z, t: jnp.asarray(A, jnp.float32) @ z
        grids = GRIDS if tier != 'quick' else [GRIDS[k % 4]]
        for gname, T in grids:
            for bs in ((3, 1) if tier == 'quick' and k % 3 == 0 else (3,) if tier == 'quick' else (1, 2, 3, 5)):
                with ctx.scenario(f'flow of {name}, times {gname}, batch {bs}') as s:
                    if not s: continue
                    ctx.state(name, gname, bs)
                    z0 = lib.probe(bs * n).reshape(bs, n)
                    want = np.array([[expm(A * (t - T[0])) @ z for t in T] for z in z0])
                    Tj, zj = jnp.asarray(T, jnp.float32), jnp.asarray(z0, jnp.float32)
                    b = np.asarray(h.BHamiltonianFlow(H, zj, Tj))
                    s.close(b, want, 'batched rollout', tol=1e-2)
                    tight = np.asarray(h.BHamiltonianFlow(H, zj, Tj, tol=2e-6))
                    s.close(tight, want, 'batched rollout (tol 2e-6)', tol=2e-3)
                    o = np.asarray(h.BOdeFlow(dyn, zj, Tj))
                    s.close(o, want, 'batched ODE rollout', tol=1e-2)
                    one = np.stack([np.asarray(h.HamiltonianFlow(H, z, Tj)) for z in zj[: 2 if tier == 'quick' else None]])
                    s.close(one, want[:len(one)], 'single rollouts', tol=1e-2)
                    s.step(3 + len(one))
                    E = .5 * np.einsum('bti,ij,btj->bt', b, S, b)
                    s.check(np.abs(E - E[:, :1]).max() <= 1e-2 * (1 + np.abs(want).max() ** 2), f'energy drifts by {np.abs(E - E[:, :1]).max():.3g}')
                    ctx.outcome(np.round(want, 2).tobytes())


# ------------------------------------------------------------------ the pendulum
def elements(tier):
    c = lambda t: np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    R = np.diag([-1., 1, 1])
    m = 12 if tier == 'quick' else 48
    out = [(f'rot {k}/{m}', c(2 * np.pi * k / m)) for k in range(m)] + [(f'refl {k}/{m}', c(2 * np.pi * k / m) @ R) for k in range(m)]
    return out + [('rot 1', c(1.)), ('refl -2.3', c(-2.3) @ R)]


def pendulum(ctx, part, parts, tier):
    import jax, jax.numpy as jnp
    h = hd.load()
    with hd.home():
        np.random.seed(3)
        ds = h.DoubleSpringPendulum(n_systems=2, chunk_len=2, dt=.2, integration_time=1)
        G = ds.symmetry
        els = [('generator ' + str(i), np.asarray(m @ np.eye(3))) for i, m in enumerate(G.discrete_generators)]
        els += [(f'exp {t} A{i}', expm(t * np.asarray(A @ np.eye(3)))) for i, A in enumerate(G.lie_algebra) for t in (.5, -2.)]
        els += elements(tier)
        rin, rout = ds.rep_in(G), ds.rep_out(G)
        Hj, dynj = jax.jit(ds.H), jax.jit(lambda z: h.hamiltonian_dynamics(ds.H, z, 0.))
        zs = [np.r_[0, 0, -1.5, 0, 0, -3., np.zeros(6)] + .3 * lib.probe(12, t=t) for t in range(4)]
        zs += [lib.probe(12, t=t + 9) * (1 + t) for t in range(4)]
        T = jnp.arange(0, 1.2, .3)
        flow = lambda z0: np.asarray(h.BHamiltonianFlow(ds.H, jnp.asarray(z0, jnp.float32), T, tol=2e-6))
        base = flow(np.array(zs[:4]))
        for k, (name, g) in list(enumerate(els))[part::parts]:
            with ctx.scenario(f'pendulum under {name}') as s:
                if not s: continue
                ctx.state(name)
                s.check(rin.size() == 12 and rout.size() == 1, 'sizes of the declared representations')
                P = np.asarray(rin.rho_dense(jnp.asarray(g, jnp.float32)))
                s.close(P, np.kron(np.eye(4), g), 'representation of the state (x1,x2,p1,p2)', tol=1e-5)
                s.close(np.asarray(rout.rho_dense(jnp.asarray(g, jnp.float32))), np.eye(1), 'representation of the energy', tol=1e-6)
                for i, z in enumerate(zs):
                    a, b = float(Hj(jnp.asarray(z, jnp.float32))), float(Hj(jnp.asarray(P @ z, jnp.float32)))
                    s.step()
                    s.check(abs(a - b) < 1e-3 * (1 + abs(a)), f'H(z{i})={a:.5g} but H(gz{i})={b:.5g}')
                    s.close(dynj(jnp.asarray(P @ z, jnp.float32)), P @ np.asarray(dynj(jnp.asarray(z, jnp.float32))), f'dynamics at gz{i}', tol=2e-3)
                s.close(flow(np.array(zs[:4]) @ P.T), base @ P.T, 'rollouts of rotated initial conditions', tol=1e-2)
                E = np.array([[float(Hj(z)) for z in tr] for tr in base])
                s.check(np.abs(E - E[:, :1]).max() < 2e-2 * (1 + np.abs(E).max()), f'energy drifts by {np.abs(E - E[:, :1]).max():.3g}')
        with ctx.scenario('integrate, single against batched') as s:
            if s and part == 0:
                for n in (1, 2, 3, len(zs)):
                    for lead in ((n,), (1, n), (n, 1)):
                        Z = jnp.asarray(np.array(zs[-n:]).reshape(lead + (12,)), jnp.float32)
                        s.close(float(h.DoubleSpringPendulum.H(ds, Z)), sum(float(Hj(jnp.asarray(z, jnp.float32))) for z in zs[-n:]), f'energy of a batch of shape {lead}', tol=2e-3)
                        want = np.array([np.asarray(dynj(jnp.asarray(z, jnp.float32))) for z in zs[-n:]]).reshape(lead + (12,))
                        s.close(h.hamiltonian_dynamics(ds.H, Z, 0.), want, f'dynamics of a batch of shape {lead}', tol=2e-3)
                for z, b in zip(zs, base): s.close(ds.integrate(jnp.asarray(z, jnp.float32), T), b, 'integrate', tol=2e-2)


# ------------------------------------------------------------------ datasets
_cls = {}


def dataset_class(kind):
    """free particle / oscillator / shipped SHO with enumerated distinct initial conditions; exact rollouts"""
    if kind in _cls: return _cls[kind]
    h = hd.load()
    base = h.SHO if kind == 'SHO' else h.HamiltonianDataset

    class DS(base):
        drawn = []

        def sample_initial_conditions(self, bs):
            k = len(type(self).drawn)
            i = np.arange(k, k + bs)
            # consecutive systems are well separated and lie on different orbits
            z = np.stack([1 + .37 * i, -.5 + .11 * i], 1)
            type(self).drawn += list(z)
            return z
    if kind == 'free':
        DS.H = lambda self, z: (z[..., 1] ** 2).sum() / 2
        DS.A = np.array([[0., 1], [0, 0]])
    else:
        if kind == 'osc': DS.H = lambda self, z: (z[..., 1] ** 2).sum() / 2 + (z[..., 0] ** 2).sum() * 2
        DS.A = np.array([[0., 1], [-1., 0]]) if kind == 'SHO' else np.array([[0., 1], [-4., 0]])
    DS.__name__ = DS.__qualname__ = 'DS' + kind
    _cls[kind] = DS
    return DS


class Pin:
    def __init__(self, choice): self.choice, self.hit, self.high = choice, 0, None

    def __enter__(self):
        self.orig = orig = np.random.randint

        def f(*a, **kw):
            size = kw.get('size', a[2] if len(a) > 2 else None)
            lo = kw.get('low', a[0] if a else None)
            hi = kw.get('high', a[1] if len(a) > 1 else None)
            if hi is None: lo, hi = 0, lo
            if size is not None and lo == 0 and tuple(np.atleast_1d(size)) == (len(self.choice),):
                self.hit += 1
                self.high = hi
                return np.minimum(np.asarray(self.choice), hi - 1)
            return orig(*a, **kw)
        np.random.randint = f
        return self

    def __exit__(self, *a): np.random.randint = self.orig


def check_dataset(ctx, s, h, ds, DS, drawn, n, chunk, dt, time_, grid, tol=1e-2):
    """every item is a contiguous piece, on the time grid, of the rollout of a drawn system; returns start indices"""
    s.check(len(ds) == n, f'len {len(ds)} for n_systems={n}')
    s.close(ds.T, dt * np.arange(chunk), 'T', tol=1e-5)
    s.close(ds.T_long, grid, 'T_long', tol=1e-5)
    traj = np.array([[expm(DS.A * t) @ z for t in grid] for z in drawn])      # (systems, t, 2)
    starts, used = [], []
    for i in range(len(ds)):
        (ic, T), z = ds[i]
        z, ic = np.asarray(z), np.asarray(ic)
        s.close(ic, z[0], f'item {i}: initial condition', tol=1e-6)
        s.close(T, ds.T, f'item {i}: times', tol=1e-6)
        if not s.check(z.shape == (chunk, 2), f'item {i}: shape {z.shape}'): return None
        best = None
        for st in range(len(grid) - chunk + 1):
            err = np.abs(traj[:, st:st + chunk] - z[None]).reshape(len(drawn), -1).max(1) / (1 + np.abs(traj[:, st:st + chunk]).reshape(len(drawn), -1).max(1))
            j = int(err.argmin())
            if best is None or err[j] < best[0]: best = (err[j], j, st)
        if not s.check(best[0] < tol, f'item {i} is not a contiguous piece of a rollout (distance {best[0]:.3g})', item=z): return None
        used.append(best[1])
        starts.append(best[2])
        ctx.outcome(chunk, best[2])
    s.check(len(set(used)) == len(used), f'systems used more than once: {used}')
    return starts


def chunks(ctx, part, parts, tier):
    """all chunk choices"""
    import jax.numpy as jnp
    h = hd.load()
    cases = []
    for kind in ('free', 'SHO', 'osc'):
        for n in (1, 2, 3):
            for chunk, steps in ((1, 3), (2, 4), (2, 5), (3, 7), (4, 4), (3, 9), (5, 11), (2, 7), (2, 3)):
                if tier == 'quick' and (steps // chunk) ** n > (9 if kind == 'free' else 4): continue
                cases.append((kind, n, chunk, steps))
    for kind, n, chunk, steps in cases[part::parts]:
        for dt in ((.25,) if tier == 'quick' else (.25, .125, .5)):
            DS = dataset_class(kind)
            grid = dt * np.arange(steps)
            nch = steps // chunk
            seen = set()
            with ctx.scenario(f'{kind}: {n} systems, {steps} times, chunks of {chunk}, dt {dt}') as s:
                if not s: continue
                for choice in itertools.product(range(nch), repeat=n):
                    ctx.state(kind, n, chunk, steps, dt, choice)
                    with hd.home(), Pin(choice) as p:
                        DS.drawn = []
                        ds = DS(n, chunk, dt, steps * dt)
                        s.step()
                        drawn = np.array(DS.drawn)
                    st = check_dataset(ctx, s, h, ds, DS, drawn, n, chunk, dt, steps * dt, grid, tol=3e-3)
                    if st is None: break
                    if p.hit:
                        seen.add(tuple(st))
                        s.check(p.high == nch, f'chunk numbers are drawn below {p.high} although {nch} chunks fit')
                if p.hit and not s.failed: s.check(len(seen) == nch ** n, f'{len(seen)} different start combinations for {nch ** n} choices')


def sizes(ctx, part, parts, tier):
    """dataset sizes around the internal batching"""
    h = hd.load()
    ns = [1, 2, 7, 50, 99, 100, 101, 150, 199, 200, 201, 250] + ([300, 301, 399, 1000] if tier != 'quick' else [])
    for n, (chunk, steps, dt) in list(itertools.product(ns, [(2, 5, .2), (5, 15, .1)]))[part::parts]:
        for kind in ('free', 'osc'):
            DS = dataset_class(kind)
            if tier == 'quick' and kind == 'osc' and n not in (2, 100, 101, 250): continue
            for regen in ((False, True) if tier != 'quick' or n in (2, 101) else (False,)):
                with ctx.scenario(f'{kind}: n_systems={n}, chunks of {chunk} of {steps}, regen={regen}') as s:
                    if not s: continue
                    ctx.state(kind, n, chunk, steps, regen)
                    with hd.home():
                        DS.drawn = []
                        ds = DS(n_systems=n, chunk_len=chunk, dt=dt, integration_time=(steps - .5) * dt, regen=regen)
                        s.step()
                        drawn = np.array(DS.drawn)
                    check_dataset(ctx, s, h, ds, DS, drawn, n, chunk, dt, steps * dt, dt * np.arange(steps))


def rollout_errors(ctx, kind, bs, tier):
    """the error measures of the experiment: zero for the true Hamiltonian, positive and right otherwise"""
    import jax, jax.numpy as jnp
    from torch.utils.data import DataLoader
    h = hd.load()
    for _ in (0,):
        DS = dataset_class(kind)
        with hd.home():
            DS.drawn = []
            ds = DS(4 if bs == 2 else 5 if bs == 5 else 2, 3, .2, 2.1)
            for _ in (0,):
                with ctx.scenario(f'{kind}: error measures, batch {bs}') as s:
                    if not s: continue
                    ctx.state(kind, bs)
                    H = lambda z: ds.H(z)
                    other = lambda z: ds.H(z) * 1.1 + .05 * (z[..., 0]).sum()
                    f = lambda z, t: jnp.asarray(DS.A, jnp.float32) @ z
                    seen = 0
                    for (z0, T), zt in DataLoader(ds, batch_size=bs):
                        z0, T, zt = np.asarray(z0), np.asarray(T), np.asarray(zt)
                        s.check(z0.shape[1:] == (2,) and T.shape == (len(z0), 3) and zt.shape == (len(z0), 3, 2), 'shapes of a minibatch')
                        s.close(zt[:, 0], z0, 'initial conditions', tol=1e-6)
                        s.close(T, np.tile(.2 * np.arange(3), (len(z0), 1)), 'times', tol=1e-5)
                        seen += len(z0)
                        mb = ((jnp.asarray(z0), jnp.asarray(T)), jnp.asarray(zt))
                        s.close(h.BHamiltonianFlow(H, mb[0][0], mb[0][1][0]), zt, 'rollout of the initial conditions', tol=1e-2)
                        pg = np.asarray(h.pred_and_gt(ds, H, mb))
                        TL = np.asarray(ds.T_long)
                        want = np.array([[expm(DS.A * t) @ z for t in TL] for z in z0])
                        s.check(pg.shape == want.shape + (2,), f'pred_and_gt shape {pg.shape}')
                        s.close(pg[..., 1], want, 'pred_and_gt: ground truth', tol=5e-3)
                        s.close(pg[..., 0], want, 'pred_and_gt: prediction of the true Hamiltonian', tol=5e-3)
                        po = np.asarray(h.pred_and_gt(ds, other, mb))
                        s.close(po[..., 1], want, 'pred_and_gt: ground truth (other model)', tol=5e-3)
                        s.check(np.abs(po[..., 0] - want).max() > 1e-2, 'pred_and_gt: prediction of another Hamiltonian')
                        pq = np.asarray(h.pred_and_gt_ode(ds, f, mb))
                        s.close(pq, np.stack([want, want], -1), 'pred_and_gt_ode', tol=5e-3)
                        e0, e1, e2 = (float(h.log_rollout_error(ds, H, mb)), float(h.log_rollout_error(ds, other, mb)), float(h.log_rollout_error_ode(ds, f, mb)))
                        s.step(5)
                        s.check(e0 < np.log(1e-3), f'log rollout error of the true Hamiltonian {e0:.3g}')
                        s.check(e2 < np.log(1e-3), f'log rollout error of the true dynamics {e2:.3g}')
                        p = po[..., 0]
                        rms = lambda a: np.sqrt((a ** 2).mean(-1))
                        w = np.log(np.maximum(rms(p - want) / (rms(p) + rms(want)), 1e-7))
                        s.check(e1 > e0 + 1, f'log rollout error of another Hamiltonian {e1:.3g} against {e0:.3g}')
                        ctx.outcome(kind, bs, round(e1, 1))
                        # first time point: both equal the initial condition (clamped); its float noise is not predicted
                        s.check(abs(e1 - (w[:, 1:].sum(1) + np.log(1e-7)).mean() / len(TL)) < .35 * 3, f'geometric mean of the relative errors: {e1:.3g} instead of {(w[:, 1:].sum(1) + np.log(1e-7)).mean() / len(TL):.3g}')
                    s.check(seen == len(ds), f'{seen} items iterated')
