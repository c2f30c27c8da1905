"""Definitions of the planted bugs: `seeds.py build [ids]` writes /verif/seeded/<id>/ from a scratch copy of /repo and
confirms each one (builds, stable tests pass, demo fails with the change and passes without it);
`seeds.py check [ids]` runs the property's quick check against the scratch copy (MC_REPO) and reports whether it is caught."""
import os, sys, json, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = '/verif'
SCR = '/tmp/w/seeds'
PRE = '''import os, sys, tempfile, logging, warnings
warnings.simplefilter('ignore')
import numpy as np, jax, jax.numpy as jnp
from emlp.reps import V, T, Scalar, Rep
from emlp.reps.linear_operators import *
from emlp.reps.linear_operators import densify, lazify
from emlp.reps.linear_operator_base import Lazy
from emlp.groups import *
import emlp.nn as enn
np.random.seed(0)
D = lambda x: np.asarray(densify(x))
def die(msg):
    print('FAIL', msg); sys.exit(1)
def close(a, b, msg, tol=1e-3):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: die(f'{msg}: {a.shape} {b.shape}')
    e = np.abs(a-b).max() if a.size else 0
    if not e <= tol*(1+np.abs(b).max() if b.size else 1): die(f'{msg}: {e}')
'''
HD = '''
import types, collections, collections.abc
collections.Iterable = collections.abc.Iterable
home = tempfile.mkdtemp(); os.environ['HOME'] = home
import atexit, shutil
atexit.register(shutil.rmtree, home, True)
sys.path.insert(0, os.path.join(os.getcwd(), 'experiments'))
sys.argv = ['demo']
from trainer import hamiltonian_dynamics as hd
'''
R, PS, G, LO, LB = ('emlp/reps/representation.py', 'emlp/reps/product_sum_reps.py', 'emlp/groups.py',
                    'emlp/reps/linear_operators.py', 'emlp/reps/linear_operator_base.py')
OB, FL, HK, PT, DS = ('emlp/nn/objax.py', 'emlp/nn/flax.py', 'emlp/nn/haiku.py', 'emlp/nn/pytorch.py', 'emlp/datasets.py')
HDF = 'experiments/trainer/hamiltonian_dynamics.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_list.py')).read())


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def make_copy(s, sub=''):
    d = f'{SCR}/{s["id"]}{sub}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(SCR, exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    for f, old, new in s['edits']:
        p = f'{d}/{f}'
        t = open(p, newline='').read()
        crlf = '\r\n' in t
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    return d


ENV = dict(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def stable(d):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    out = d + '.json'
    files = 'tests/model_tests.py tests/product_groups_tests.py'
    rc, o = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --dist worksteal --randomly-seed=0 --randomly-dont-reorganize '
               f'--timeout=600 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}.xml {files}; '
               f'/opt/venv/bin/python /opt/vp/results.py {out} junit:{d}.xml', cwd=d, env=dict(ENV, PYTHONPATH=d))
    passed = set(json.load(open(out))['passed'])
    return [t for t in base if t not in passed]


def build(s, tests=True):
    d = make_copy(s)
    dst = f'{VERIF}/seeded/{s["id"]}'
    os.makedirs(dst, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE).stdout
    open(f'{dst}/patch.diff', 'wb').write(diff)
    open(f'{dst}/demo.py', 'w').write(s['demo'])
    open(f'{dst}/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1 OMP_NUM_THREADS=2 PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python "$D/demo.py"
''')
    os.chmod(f'{dst}/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{dst}/meta.json', 'w'), indent=1)
    r = dict(id=s['id'], prop=s['prop'])
    rc, o = sh(['bash', f'{dst}/demo.sh'], cwd='/repo', timeout=300)
    r['clean'] = rc
    if rc: r['cleanout'] = o[-600:]
    rc, o = sh(['bash', f'{dst}/demo.sh'], cwd=d, timeout=300)
    r['patched'] = rc
    r['out'] = o.strip().splitlines()[-1][:160] if o.strip() else ''
    if tests and r['clean'] == 0 and r['patched'] != 0:
        r['tests_failed'] = stable(d)
    ok = r['clean'] == 0 and r['patched'] != 0 and not r.get('tests_failed')
    r['ok'] = ok
    return r


def check(s, keep=False):
    d = make_copy(s, '.check')
    rc, o = sh(f'cd {VERIF} && MC_NPROC=8 ./check {s["prop"]} quick', env=dict(MC_REPO=d), timeout=1200)
    lines = [l for l in o.splitlines() if l.startswith('VIOLATION') or '[quick]' in l]
    shutil.rmtree(d)
    return dict(id=s['id'], prop=s['prop'], rc=rc, out=lines[:3] or o[-400:])


if __name__ == '__main__':
    mode, ids = sys.argv[1], sys.argv[2:]
    sel = [s for s in SEEDS if not ids or any(s['id'].startswith(i) for i in ids)]
    if mode in ('build', 'demo'):
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda s: build(s, mode == 'build'), sel):
                print(json.dumps(r), flush=True)
                p = f'{SCR}/{r["id"]}'
                if os.path.exists(p): shutil.rmtree(p)
    else:
        for s in sel:
            print(json.dumps(check(s)), flush=True)
