"""Proves the axioms the verifier uses (pyvc/logic.py) in Lean 4.

1. the statements in lean/ are regenerated from the z3 formulas and must be
   the committed ones, so what is proved is what is assumed;
2. lean/*.lean is compiled in a scratch directory; Check.lean builds a value of
   the structure `All`, which has one field per statement;
3. the proof may depend only on Lean's own three axioms, and no file may
   contain `sorry`, `axiom` or `native_decide`.
Exit 0 and a line 'LEAN n statements proved', or exit 1.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['Model', 'Statements'] + [f'Proofs{i}' for i in range(1, 9)] + ['Proofs', 'Check']


def main():
    t0 = time.time()
    r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'lean_gen.py'), '--check'])
    if r.returncode:
        print('LEAN statements differ from pyvc/logic.py')
        return 1
    if not shutil.which('lean'):
        print('LEAN not installed: the proofs of the axioms were not rechecked')
        return 0
    d = tempfile.mkdtemp(prefix='leancheck')
    try:
        out = ''
        for m in MODULES:
            src = open(os.path.join(HERE, 'lean', m + '.lean')).read()
            code = re.sub(r'/-.*?-/', '', src, flags=re.S)
            code = re.sub(r'--.*', '', code)
            if re.search(r'\b(sorry|axiom|native_decide|unsafe|implemented_by|extern)\b', code):
                print('LEAN', m, 'contains an escape hatch')
                return 1
            with open(os.path.join(d, m + '.lean'), 'w') as f:
                f.write(src)
            r = subprocess.run(['lean', '-o', m + '.olean', m + '.lean'], cwd=d, env=dict(os.environ, LEAN_PATH='.'),
                               capture_output=True, text=True, timeout=900)
            out = r.stdout + r.stderr
            if r.returncode:
                print('LEAN', m, 'fails:', out[:2000])
                return 1
        m = re.search(r"'SC.all' depends on axioms: \[([^\]]*)\]", out)
        if not m or set(x.strip() for x in m.group(1).split(',')) - {'propext', 'Classical.choice', 'Quot.sound'}:
            print('LEAN unexpected axioms:', out[:500])
            return 1
        n = len(re.findall(r'^def a_', open(os.path.join(d, 'Statements.lean')).read(), flags=re.M))
        print(f'LEAN {n} statements proved in {time.time() - t0:.0f} s')
        return 0
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sys.exit(main())
