"""Driver side and worker side plumbing shared by all checks.

A check module defines
    plan(tier) -> list of (function_name, kwargs)      (the shards)
    function(ctx, **kwargs)                            (runs in a worker process)
    LEVEL, RULE, ASSUMPTIONS (strings / lists)
Every shard explores its slice completely and reports through ctx."""
import os, sys, json, time, traceback, hashlib, signal, importlib, contextlib, faulthandler

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
NPROC = int(os.environ.get('MC_NPROC', '8'))


def setup_env():
    e = os.environ
    e['JAX_PLATFORMS'] = 'cpu'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['MPLBACKEND'] = 'Agg'
    e['TQDM_DISABLE'] = '1'
    e['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    e['JAX_ENABLE_X64'] = '0'
    sys.dont_write_bytecode = True


class ScenarioTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise ScenarioTimeout('scenario did not terminate in time')


class Skip(Exception):
    """The scenario is outside the explored domain (not counted)."""


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'|')
    return h.hexdigest()[:16]


class Ctx:
    """Per-shard recorder."""

    def __init__(self, prop, func, kwargs, tier, deadline, only=None, timeout=150):
        self.prop, self.func, self.kwargs, self.tier = prop, func, kwargs, tier
        self.states, self.outcomes = set(), set()
        self.transitions = self.validated = self.scenarios = 0
        self.samples, self.violations = [], []
        self.deadline, self.truncated = deadline, 0
        self.only = only          # replay: only this scenario name
        self.timeout = timeout
        self.extra = {}

    # -- recording -------------------------------------------------------
    def state(self, *key):
        k = digest(*key)
        new = k not in self.states
        self.states.add(k)
        return new

    def outcome(self, *key):
        self.outcomes.add(digest(*key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, name, what, **detail):
        """Record a violation found in scenario `name`."""
        if len(self.violations) < 40:
            self.violations.append(dict(property=self.prop, func=self.func, kwargs=self.kwargs, tier=self.tier,
                                        scenario=name, what=str(what)[:2000],
                                        detail={k: str(v)[:1500] for k, v in detail.items()}))
        else:
            self.extra['violations_not_listed'] = self.extra.get('violations_not_listed', 0) + 1

    # -- running ---------------------------------------------------------
    @contextlib.contextmanager
    def scenario(self, name, allow=()):
        """Run one scenario: seeds the pinned random answers, bounds its run time and turns
        any exception into a violation.  Use as `with ctx.scenario(name) as s: if s: ...`"""
        name = str(name)
        if self.only is not None and name != self.only:
            yield None
            return
        if time.time() > self.deadline:
            self.truncated += 1
            yield None
            return
        import numpy as np
        np.random.seed(int(digest(name), 16) % (2 ** 32))
        s = _Scenario(self, name)
        self.scenarios += 1
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.timeout)
        try:
            try:
                yield s
            finally:
                signal.alarm(0)
        except Skip:
            self.scenarios -= 1
        except allow as e:
            s.ok(1)
        except Exception as e:
            tb = traceback.format_exc().splitlines()
            self.fail(name, f'exception {type(e).__name__}: {e}', traceback='\n'.join(tb[-14:]))
        finally:
            signal.signal(signal.SIGALRM, old)
        if self.scenarios % 4 == 0: trim()

    def result(self):
        return dict(func=self.func, states=self.states, outcomes=self.outcomes, transitions=self.transitions,
                    validated=self.validated, scenarios=self.scenarios, samples=self.samples,
                    violations=self.violations, truncated=self.truncated, extra=self.extra)


_limit = [1200]


def trim():
    """Forget compiled functions when this process has grown large."""
    try:
        mb = int(open('/proc/self/statm').read().split()[1]) * 4096 >> 20
        maps = sum(1 for _ in open('/proc/self/maps')) if mb > 600 else 0
    except OSError:
        return
    if mb > _limit[0] or maps > 45000:
        import gc, jax
        jax.clear_caches()
        gc.collect()
        mb = int(open('/proc/self/statm').read().split()[1]) * 4096 >> 20
        _limit[0] = max(1200, mb + 500)


class _Scenario:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.failed = False

    def __bool__(self):
        return True

    def step(self, n=1):
        self.ctx.transitions += n

    def ok(self, n=1):
        self.ctx.validated += n

    def fail(self, what, **d):
        self.failed = True
        self.ctx.fail(self.name, what, **d)

    def check(self, cond, what, **d):
        if not cond:
            self.fail(what, **d)
        else:
            self.ctx.validated += 1
        return bool(cond)

    def close(self, got, want, what, tol=2e-3, **d):
        """got == want up to tol relative to the scale of want."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(f'{what}: shape {got.shape} instead of {want.shape}', **d)
            return False
        if want.size == 0:
            self.ctx.validated += 1
            return True
        if not np.all(np.isfinite(got)):
            self.fail(f'{what}: non-finite values', **d)
            return False
        err = float(np.max(np.abs(got - want)))
        scale = 1 + float(np.max(np.abs(want)))
        if not err <= tol * scale:
            self.fail(f'{what}: max difference {err:.3g} (scale {scale:.3g})', got=np.array2string(got, threshold=40, precision=4),
                      want=np.array2string(want, threshold=40, precision=4), **d)
            return False
        self.ctx.validated += 1
        return True


def worker_init():
    setup_env()
    faulthandler.enable()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def import_library():
    import emlp
    import emlp.groups, emlp.reps, emlp.nn
    if not os.path.abspath(emlp.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'wrong emlp imported: {emlp.__file__}')
    return emlp


def run_shard(prop, modname, func, kwargs, tier, deadline, only=None):
    worker_init()
    ctx = Ctx(prop, func, kwargs, tier, deadline, only)
    t0 = time.time()
    try:
        import_library()
        mod = importlib.import_module(modname)
        from . import seams
        seams.install(0)
        getattr(mod, func)(ctx, **kwargs)
    except Exception as e:
        tb = traceback.format_exc()
        # an exception outside any scenario: the library could not even be imported/prepared
        lib = any(('/emlp/' in l) or ('/experiments/' in l) for l in tb.splitlines() if l.strip().startswith('File'))
        if lib:
            ctx.fail('<shard>', f'exception outside a scenario: {type(e).__name__}: {e}', traceback=tb[-1500:])
        else:
            raise
    r = ctx.result()
    r['wall'] = time.time() - t0
    return r


# ---------------------------------------------------------------- known findings
def load_known():
    """known_findings.txt lines:  known: property=<id> scenario=<name> -- <what fails>"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                body, _, what = line[len('known:'):].partition(' -- ')
                prop = body.split('property=')[1].split()[0]
                scen = body.split('scenario=')[1].strip()
                out.append((prop, scen, what.strip()))
    return out


def run_check(prop, modname, tier, replay=None):
    setup_env()
    t0 = time.time()
    mod = importlib.import_module(modname)
    budget = float(os.environ.get('MC_BUDGET', '0')) or (getattr(mod, 'BUDGET', {}).get(tier) or (420 if tier == 'quick' else 3000))
    deadline = t0 + budget
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if replay:
        rp = json.load(open(replay))
        tier = rp.get('tier', tier)
        plan = [(rp['func'], rp['kwargs'])]
        only = rp['scenario'] if rp['scenario'] != '<shard>' else None
        deadline = t0 + 850
    else:
        plan = mod.plan(tier)
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    results, errors = [], []
    nproc = min(NPROC, len(plan))
    with ProcessPoolExecutor(nproc, mp_context=mp.get_context('spawn'), initializer=worker_init) as ex:
        futs = [ex.submit(run_shard, prop, modname, f, kw, tier, deadline, only) for f, kw in plan]
        for fu, (f, kw) in zip(futs, plan):
            try:
                results.append(fu.result())
            except Exception as e:
                errors.append((f, kw, e))
    return finish(prop, mod, tier, seed, plan, results, errors, t0, replay)


def finish(prop, mod, tier, seed, plan, results, errors, t0, replay):
    states, outcomes = set(), set()
    tot = dict(transitions=0, validated=0, scenarios=0, truncated=0)
    samples, violations, extra = [], [], {}
    for r in results:
        states |= r['states']
        outcomes |= r['outcomes']
        for k in tot:
            tot[k] += r[k]
        samples += r['samples'][:1] if len(samples) < 8 else []
        violations += r['violations']
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    known = load_known()
    listed, new = [], []
    for v in violations:
        m = [k for k in known if k[0] == prop and k[1] == v['scenario']]
        (listed if m else new).append((v, m[0][2] if m else None))
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['validated'],
               scenarios=tot['scenarios'], distinct_outcomes=len(outcomes), shards=len(plan),
               samples=samples or ['(none)'], exhaustive=(tot['truncated'] == 0),
               scenarios_not_reached_in_time=tot['truncated'], rule=getattr(mod, 'RULE', ''))
    if level != 'model_checking':
        cov['evaluations'] = tot['scenarios']
        cov['distinct_nontrivial'] = len(states)
    if extra:
        cov['counters'] = extra
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))
    if not replay:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{prop} [{tier}] scenarios={tot["scenarios"]} states={len(states)} transitions={tot["transitions"]} '
          f'validated={tot["validated"]} outcomes={len(outcomes)} truncated={tot["truncated"]} '
          f'violations={len(new)} known={len(listed)} wall={wall:.1f}s')
    if os.environ.get('MC_VERBOSE'):
        for r, (f, kw) in sorted(zip(results, plan), key=lambda x: -x[0]['wall']):
            print(f'   shard {f} {str(kw)[:90]} wall={r["wall"]:.1f} scen={r["scenarios"]}')
        print('   counters', extra)
    seen = set()
    for v, what in listed:
        k = v['scenario']
        if k not in seen:
            seen.add(k)
            print(f'KNOWN-FINDING: property={prop} {what} [{k}]')
    for f, kw, e in errors:
        print(f'ERROR in shard {f} {kw}: {type(e).__name__}: {e}', file=sys.stderr)
    if new:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, (v, _) in enumerate(new[:12]):
            path = os.path.join(rdir, f'{prop}-{digest(v["func"], v["kwargs"], v["scenario"], v["what"][:60])}.json')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  scenario: {v["scenario"]}\n  what: {v["what"][:400]}')
            if os.environ.get('MC_VERBOSE'):
                for k, t in v['detail'].items():
                    print(f'  {k}: {t}')
        if len(new) > 12:
            print(f'  ... and {len(new) - 12} more')
        return 1
    if errors:
        return 2
    if tot['scenarios'] == 0:
        print('no scenario was explored', file=sys.stderr)
        return 2
    return 0
