"""Refresh pyvc/hints.json from a development run (runall.py): the names of
inline proofs that succeed, and how long each scenario takes.  Hints only
steer time budgets and the order of work."""
import json
import os
import sys
r = json.load(open(sys.argv[1]))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'pyvc', 'hints.json')
try:
    h = json.load(open(p))
except OSError:
    h = {'inline': {}, 'secs': {}, 'uses': {}}
for x in r:
    if x['unsupported'] or any(not o['ok'] for o in x['obligations']):
        continue
    kept = {c for _, cs in x['loops'] for c in cs}
    names = sorted({f'loop invariant {c} is preserved' for c in kept} | {n for n, _, _ in x['inline_list'] if n.startswith('loop measure ')})
    if names:
        h['inline'][x['id']] = names
    h['secs'][x['id']] = round(x['secs'], 1)
    h.setdefault('reach', {})[x['id']] = x.get('reach', [])
    h['uses'][x['id']] = sorted(map(list, x['uses']))
json.dump(h, open(p, 'w'), indent=0, sort_keys=True)
