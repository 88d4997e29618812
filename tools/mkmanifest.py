import json
import os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = {
    'default': 'Every obligation generated from the current source is discharged for all inputs and all container sizes; loops by invariants, calls by contracts. '
               'Assumes the contracts of Python built-ins in pyvc/builtins_model.py, coherent comparisons/keys/hashes, mathematical integers, and the soundness of pyvc itself (see DESIGN.md). '
               'A short concrete cross-check of the same property runs alongside; it is bounded and counts for nothing in the proof.',
}
NA = {'C17': 'Running-time and comparison-count bounds are not expressible in these contracts: the verifier reasons about values and states, it has no cost semantics for Python or its built-ins (list.insert, sort), and the bounds are amortised and asymptotic.'}
SKIP = os.environ.get('SKIP', '').split()
checks = [{'property': i, 'quick_cmd': f'python3-vt check.py {i}', 'thorough_cmd': f'python3-vt check.py {i} --thorough',
           'technique': 'contract-based deductive verification of the Python source (pyvc: contracts + loop invariants, obligations discharged by z3/cvc5)',
           'level': 'proof', 'level_note': NOTE.get(i, NOTE['default'])} for i in ids if i not in NA and i not in SKIP]
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup_check.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()] + [{'property': i, 'reason': 'contracts for this layer are still being written'} for i in SKIP],
     'notes': 'No hooks in /repo. Four fix: commits in /repo are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
