"""C19: automatic channel allocation always has exactly the requested size."""
import itertools
import numpy as np
from mc import ref, lib, seams, nets

RULE = ('Every channel count in the stated range x every group x answers of the random allocation (all answers when at most three ragged tensors are drawn, otherwise the two '
        'extremes and mixed patterns): the representation has exactly that size, its matrices are those of the group (checked against a block matrix built from the tensor '
        'powers of the base representation and its dual), it contains scalars and its tensor ranks fit; integer channel lists give exactly these hidden sizes.')
ASSUMPTIONS = ['random allocation is drawn with np.random.binomial (otherwise real draws are used)']


def plan(tier):
    q = tier == 'quick'
    gs = lib.allgroups(8 if q else 48)
    out = []
    byd = {}
    for g in gs: byd.setdefault(ref.group(g).d, []).append(g)
    for d, names in sorted(byd.items()):
        n = max(1, len(names) // 4)
        for i in range(n): out.append(('sizes', dict(groups=names[i::n], upto=(48 if d > 1 else 14) if q else (140 if d > 1 else 33), tier=tier)))
    for g in ('SL(2)', 'O(2)', 'SO(3)', 'GL(1)'): out.append(('answers', dict(group=g, upto=(24 if q else 60) if g != 'GL(1)' else 6 if q else 10, tier=tier)))
    for g in ('SL(2)', 'S(3)', 'O(3)'): out.append(('large', dict(group=g, tier=tier)))
    out.append(('onedim', dict(groups=[g for g in gs if ref.group(g).d == 1])))
    for fw in nets.FRAMEWORKS: out.append(('lists', dict(fw=fw, tier=tier)))
    return out


class Bin:
    """answer number t of the ragged allocation"""
    def __init__(self, t): self.t, self.calls, self.orig = t, [], np.random.binomial

    def __call__(self, n, p, size=None):
        if size is None or not isinstance(n, (int, np.integer)) or not isinstance(size, (int, np.integer)): return self.orig(n, p, size)
        n, k = int(n), int(size)
        self.calls.append((n, k))
        j, i = np.arange(k), len(self.calls)
        if self.t == 'zeros': return 0 * j
        if self.t == 'ones': return 0 * j + n
        if self.t == 'alt': return (j + i) % (n + 1)
        if self.t == 'blocks': return np.minimum(j * (n + 1) // max(k, 1), n)
        if self.t == 'real': return self.orig(n, p, size)
        if i - 1 < len(self.t): return np.array(self.t[i - 1][:k] if len(self.t[i - 1]) >= k else [0] * k, int)
        return 0 * j


def uniform(ch, G, t):
    import emlp.nn as nn
    b = Bin(t)
    old = np.random.binomial
    np.random.binomial = b
    try: return nn.uniform_rep(ch, G), b.calls
    finally: np.random.binomial = old


def check(ctx, s, g, G, ch, rep):
    s.check(rep.size() == ch, f'uniform_rep({ch}) has size {rep.size()}')
    if s.failed: return
    # the parts, through the public interface: a sum of products of V and V*
    parts = [(p, rep_rank(p, g.d)) for p in iterate(rep)]
    tot = sum(p.size() for p, _ in parts)
    s.check(tot == ch, f'the parts have total size {tot}')
    d = g.d
    fit = 0
    while (fit + 2) * d**(fit + 1) <= ch: fit += 1
    ranks = [r for _, r in parts]
    s.check(0 in ranks, f'no scalars in {rep}')
    if d > 1:
        s.check(None not in ranks, f'a part of {rep} has a size that is no power of {d}')
        s.check(max(r for r in ranks if r is not None) <= fit, f'tensors of rank {max(ranks)} although rank {fit} is the largest that fits {ch} channels')


def iterate(rep):
    import emlp.reps as R
    try: return list(iter(rep))
    except TypeError: return [rep]


def rep_rank(p, d):
    n = p.size()
    if str(p) in ('V⁰',): return 0
    r, m = 0, 1
    if d == 1: return 1
    while m < n: m, r = m * d, r + 1
    return r if m == n else None


def matrices(s, g, G, ch, rep, calls=None):
    """rho of the allocated representation is a direct sum of T(p,q) blocks of the group in the order of its parts"""
    gi = [np.asarray(h) for h in g.tests()]
    parts = iterate(rep)
    for h in gi:
        M = np.asarray(rep.rho_dense(lib.jn(h)))
        if not s.check(M.shape == (ch, ch), f'rho has shape {M.shape}'): return
        hi = np.linalg.inv(h).T
        o = 0
        mask = np.zeros((ch, ch), bool)
        for p in parts:
            n = p.size()
            B = M[o:o + n, o:o + n]
            mask[o:o + n, o:o + n] = True
            r = rep_rank(p, g.d) if g.d > 1 else None
            if g.d == 1:
                ks = [h[0, 0]**a * hi[0, 0]**b for a in range(0, 22) for b in range(0, 22) if a + b <= 21]
                ok = min(abs(B[0, 0] - k) / (1 + abs(k)) for k in ks) < 1e-2
            else:
                ok = any(np.abs(B - tensor(h, hi, a, r - a)).max() < 2e-3 * (1 + np.abs(B).max()) for a in range(r + 1))
            if not s.check(ok, f'the part {p} at {o} is not a tensor of the base representation'): return
            o += n
        s.check(np.abs(M[~mask]).max(initial=0) < 1e-4, 'the allocated representation is not a direct sum of its parts in order')


def tensor(h, hi, p, q):
    out = np.eye(1)
    for m in [h] * p + [hi] * q: out = np.kron(out, m)
    return out


def sizes(ctx, groups, upto, tier):
    for gname in groups:
        g = ref.group(gname)
        G = g.make()
        for ch in range(1, upto + 1):
            for t in ('zeros', 'ones', 'alt', 'blocks') if not g.orthogonal() else ('alt',):
                with ctx.scenario(f'{gname} uniform_rep({ch}) answers {t}') as s:
                    if not s: continue
                    s.step(); ctx.state(s.name)
                    rep, calls = uniform(ch, G, t)
                    ctx.outcome(gname, str(rep))
                    check(ctx, s, g, G, ch, rep)
                    if not s.failed and ch <= (20 if tier == 'quick' else 60) and t in ('alt', 'ones'): matrices(s, g, G, ch, rep)
                    if ch == upto: ctx.sample({'rep': str(rep), 'group': gname, 'ch': ch})


def onedim(ctx, groups):
    """one-dimensional groups: every rank fits"""
    for gname in groups:
        g = ref.group(gname)
        G = g.make()
        for ch in (34,):
            with ctx.scenario(f'{gname} uniform_rep({ch}) 1-dimensional') as s:
                if not s: continue
                s.step(); ctx.state(s.name)
                rep, calls = uniform(ch, G, 'alt')
                check(ctx, s, g, G, ch, rep)


def answers(ctx, group, upto, tier):
    g = ref.group(group)
    G = g.make()
    for ch in range(1, upto + 1):
        _, calls = uniform(ch, G, 'zeros')
        spaces = [list(itertools.product(range(n + 1), repeat=k)) for n, k in calls]
        tot = int(np.prod([len(x) for x in spaces])) if spaces else 1
        if tot > (60 if tier == 'quick' else 1000): continue
        for t in itertools.product(*spaces):
            with ctx.scenario(f'{group} uniform_rep({ch}) answers {t}') as s:
                if not s: continue
                s.step(); ctx.state(s.name)
                rep, _ = uniform(ch, G, t)
                ctx.outcome(group, str(rep))
                check(ctx, s, g, G, ch, rep)
                if not s.failed and ch <= 16: matrices(s, g, G, ch, rep)


def large(ctx, group, tier):
    g = ref.group(group)
    G = g.make()
    for ch in [64, 65, 81, 95, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 383, 384, 385, 500, 512, 768, 1000, 1024] + ([] if tier == 'quick' else list(range(130, 400, 3)) + [2048, 4096]):
        for t in ('alt', 'zeros', 'ones'):
            with ctx.scenario(f'{group} uniform_rep({ch}) answers {t}') as s:
                if not s: continue
                s.step(); ctx.state(s.name)
                rep, _ = uniform(ch, G, t)
                ctx.outcome(group, str(rep))
                check(ctx, s, g, G, ch, rep)


def lists(ctx, fw, tier):
    """integer channels of a network are its hidden sizes (seen from the shapes of its parameters)"""
    import emlp.reps as R
    forms = [(7, 1), (7, 3), (1, 2), ([5], 3), ([4, 9], 1), ([9, 4, 6], 2), ((6, 3), 3), ([1, 2, 3], 1), (12, 2)]
    for gname in ('SL(2)', 'S(3)')[:2 if fw in ('objax', 'torch') else 1] if tier == 'quick' else ('SL(2)', 'S(3)', 'O(3)', 'SO11p()', 'Trivial(2)', 'Scaling(1)'):
        g = ref.group(gname)
        G = g.make()
        for ch, nl in forms:
            with ctx.scenario(f'{fw} {gname}: EMLP(ch={ch}, num_layers={nl})') as s:
                if not s: continue
                s.step(); ctx.state(s.name)
                with seams.PinRandom(binomial=Bin('alt')): net = nets.Net(fw, lambda m: m.EMLP(R.V, R.V, G, ch=ch, num_layers=nl), g.d)
                hidden = [ch] * nl if isinstance(ch, int) else list(ch)
                W = [sh for sh in net.shapes if len(sh) == 2]
                s.check(len(W) == len(hidden) + 1, f'{len(W)} linear layers for hidden sizes {hidden}')
                ins = sorted(sh[1] for sh in W)
                s.check(ins == sorted([g.d] + hidden), f'linear layers with input sizes {ins}; expected the input size {g.d} and the hidden sizes {hidden}')
                # the forward pass accepts the parameters
                y = net.apply([.1 * p for p in net.generic(0)], lib.f32(lib.probe(2, g.d)), jit=False)
                s.check(y.shape == (2, g.d) and np.isfinite(y).all(), 'output')
                ctx.outcome(fw, gname, str(ch), nl)
