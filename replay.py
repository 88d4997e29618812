#!/usr/bin/env python3
"""replay.py FINDING.json [--repo DIR]: run a recorded failing input against the real code."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'conc'))
import search
d = json.load(open(sys.argv[1]))
root = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
if not d.get('failing_input'):
    print('no failing input was found; the failed obligations are:')
    print(json.dumps(d['failed_obligations'], indent=1))
    sys.exit(2)
mods = search.load_mods(os.path.join(root, 'src'))
m = search.runner_of(d['failing_input']['kind']).replay(d['failing_input'], d['property'], mods)
print(json.dumps(d['failing_input']))
print('observed:', m)
sys.exit(1 if m else 0)
