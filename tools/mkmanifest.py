"""Regenerates MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re, ast
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'default': 'explicit-state bounded-exhaustive model checking of the real code: all expressions/configurations up to the bound, each compared with an independent reference model',
}
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
mods = {re.match(r'(c\d+)_', f).group(1).upper(): f for f in sorted(os.listdir(os.path.join(ROOT, 'mc', 'checks'))) if re.match(r'c\d+_', f)}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i not in mods:
        na.append(dict(property=i, reason=NA.get(i, 'check not written yet')))
        continue
    src = open(os.path.join(ROOT, 'mc', 'checks', mods[i])).read()
    m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                       technique=TECH.get(i, TECH['default']), level=m.group(1) if m else 'model_checking',
                       level_note=NOTES.get(i, NOTES['default'])))
json.dump(dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks own the nondeterminism through module-level seams (mc/seams.py).'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
