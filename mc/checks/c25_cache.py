"""C25: interrupted dataset generation never poisons later runs."""
import os, sys, json, itertools, subprocess, tempfile, shutil
from mc import common, fslog

LEVEL = 'fault_enumeration'
RULE = ('The file system operations of a run are recorded by an interposed C library (open, write, rename, mkdir, ... below a scratch HOME); the tree is rebuilt after '
        'every prefix of the recorded history and every torn last write, starting from an empty cache, a cache with another dataset, the same dataset, and a '
        'regeneration; from every such state later runs must succeed with a complete dataset for their arguments and then reload it exactly. The same with the '
        'second run interrupted as well, with a full disk at every write, and with an exception before/after every call of a file system, serialisation or '
        'generation function. Every pair of argument tuples of a grid shares one cache and keeps its own data.')
ASSUMPTIONS = ['an interruption stops the process between or inside its file system operations; operations completed before it are durable in order (no reordering by a power loss)',
               'the recorded history is validated: replayed completely it must give the files of the run, otherwise only whole-run and exception points are explored']
BUDGET = {'quick': 300, 'thorough': 1800}


def argsets(tier):
    ns, cs, dts, its = [1, 2, 11, 12], [1, 2, 12], [.1, .2, .25, .125, .12], [3, 3.5, 30]
    if tier != 'quick': ns, cs, dts, its = [1, 2, 11, 12, 21, 112], [1, 2, 12, 3], [.1, .2, .25, .125, .12, .1001, .05, 1], [3, 3.5, 30, 33, 12.25, 12.5]
    out = []
    for n, c, d, t in itertools.product(ns, cs, dts, its):
        if t / d >= c: out.append([n, c, d, t])
    return out


def plan(tier):
    A = [[2, 2, .25, 1.5], [1, 1, .5, 1], [7, 3, .1, 2]]
    out = []
    every = 'fine' if tier == 'quick' else 'all'
    for b in ('SHO', 'HamiltonianDataset'):
        out.append(('explore', dict(f='crash', kw=dict(args_list=A[:1], base=b, every=every, depth=1, tier=tier))))
        out.append(('explore', dict(f='crash', kw=dict(args_list=A[1:], base=b, every='some' if tier == 'quick' else 'all', depth=1, tier=tier))))
        out.append(('explore', dict(f='crash', kw=dict(args_list=A[:1] if tier == 'quick' else A, base=b, every='some', depth=2, tier=tier))))
        out.append(('explore', dict(f='full', kw=dict(args_list=A, base=b, tier=tier))))
        out.append(('explore', dict(f='interrupt', kw=dict(args_list=A[:1] if tier == 'quick' else A, base=b, tier=tier))))
    parts = 2 if tier == 'quick' else 8
    bases = ['HamiltonianDataset', 'SHO']
    out += [('explore', dict(f='keys', kw=dict(args_list='std', bases=bases, part=i, parts=parts, tier=tier))) for i in range(parts)]
    out.append(('explore', dict(f='real', kw=dict(tier=tier))))
    return out


def explore(ctx, f, kw):
    kw = dict(kw)
    if kw.get('args_list') == 'std': kw['args_list'] = argsets(kw['tier'])
    d = tempfile.mkdtemp(prefix='mc_fslog_')
    try:
        so = fslog.build(os.path.join(d, 'fslog.so'))
        env = dict(os.environ, LD_PRELOAD=so, HOME=d, PYTHONPATH=common.ROOT)
        limit = max(60, ctx.deadline - __import__('time').time() + 60)
        p = subprocess.run([sys.executable, '-B', '-m', 'mc.crashchild', so, f, json.dumps(kw), ctx.only or ''], env=env, cwd=common.ROOT,
                           capture_output=True, text=True, timeout=limit)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines = [l[2:] for l in p.stdout.splitlines() if l.startswith('@@')]
    for l in lines:
        if l == 'done': continue
        r = json.loads(l)
        with ctx.scenario(r['name']) as s:
            if not s: continue
            for i in range(r['steps']): ctx.state(r['name'], i)
            s.step(r['steps'])
            s.ok(r['ok'])
            ctx.outcome(r['name'], bool(r['nfails']))
            for x in r['fails']: s.fail(x)
    if 'done' not in lines:
        if ctx.only and lines: return
        tail = p.stderr[-1500:]
        with ctx.scenario(f'{f} explored to the end') as s:
            if s: s.fail(f'exploring process ended with code {p.returncode}', stderr=tail)
