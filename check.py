#!/usr/bin/env python3
"""check.py PROPERTY [--repo DIR]: decide one property on the current tree.

Runs pyvc on every contract the property rests on.  See DESIGN.md.
"""
import json
import os
import resource
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('pyvc', 'conc', 'driver'):
    sys.path.insert(0, os.path.join(HERE, d))
import props as P
from pool import Pool
import search as CONC

ap = sys.argv[1:]
PID = ap[0]
ROOT = ap[ap.index('--repo') + 1] if '--repo' in ap else '/repo'
SRC = os.path.join(ROOT, 'src')
REPO = os.path.join(SRC, 'sortedcontainers')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough' or '--thorough' in ap
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
VERBOSE = '-v' in ap
# time budget (seconds since start)
B_PROOF = 560           # proofs stop here
B_END = 800
CROSS = 30 if THOROUGH else 6      # concrete cross-check


def log(*a):
    if VERBOSE:
        print(f'[{time.time() - T0:6.1f}]', *a, file=sys.stderr, flush=True)


def prove(sid, no_contract, opts):
    import verify
    sc = SCS[sid]
    return verify.prove_scenario(sc, repo=REPO, no_contract=no_contract, **opts)


def lemmas():
    import rep
    import solve
    out = []
    for nm, f, g in rep.lemma_obligations():
        r = solve.prove(f, g, ms=20000)
        out.append({'name': nm, 'ok': r.ok, 'backend': r.backend, 'secs': round(r.secs, 3), 'tags': ['lemma'], 'line': 0, 'why': r.why, 'goal': r.goal})
    return {'id': 'lemmas', 'obligations': out, 'uses': [], 'unsupported': None, 'inline': 0, 'secs': sum(o['secs'] for o in out), 'paths': 0}


def axioms():
    """The statements proved in Lean are those assumed here; thorough: prove them again."""
    import subprocess
    tool = 'lean_check.py' if THOROUGH else 'lean_gen.py'
    r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', tool)] + ([] if THOROUGH else ['--check']), capture_output=True, text=True)
    return {'ok': r.returncode == 0, 'text': r.stdout.strip()[-200:]}


class Scen:
    """What is known about one scenario."""

    def __init__(self, sc):
        self.sc = sc
        self.rec = None
        self.tier = 0
        self.as_root = None        # filter, if a root
        self.as_callee = False


def main():
    import verify
    global SCS
    scs = verify.all_scenarios()
    SCS = {s.id: s for s in scs}
    roots = P.roots(PID, scs)
    if not roots:
        print(f'no contract is registered for {PID}', file=sys.stderr)
        return 2
    try:
        HINTS = json.load(open(os.path.join(HERE, 'pyvc', 'hints.json')))
    except OSError:
        HINTS = {'secs': {}, 'uses': {}}
    sizes = P.is_sizes(PID)

    # 1. concrete cross-check of the property on the real code
    found = None
    conc = {'programs': 0, 'ops': 0, 'secs': 0.0}

    def concrete(secs, focus=None, salt=0):
        r = CONC.search(SRC, PID, SEED + 7919 * salt, secs, focus, procs=min(8, os.cpu_count() or 1))
        for k in conc:
            conc[k] += r[k]
        return r['found']
    try:
        found = concrete(CROSS)
    except Exception as e:   # noqa
        log('cross-check failed to run', repr(e))
    log('cross-check', conc, 'FOUND' if found else '')

    only = None
    proof_end = T0 + B_PROOF
    if found:
        # name the failed obligation: look at the functions the input goes through
        names = {op[0] if isinstance(op, list) else op for op in found['found']['ops']} | {'reinit'}
        kind = found['found']['kind']
        hit = [(s, f) for s, f in roots if P.KIND.get(s.cls) == kind and set(P.focus_of(s.cls, s.method)['ops']) & names]
        only = hit or roots
        proof_end = min(proof_end, time.time() + 100)

    # 2. proofs
    S = {}
    no_contract = set()
    pool = Pool()
    done_callee = {}
    failed_contracts = {}      # (cls, method) -> scenario record that failed

    def opts_for(sid, tier):
        # the self-check is a statement about the block sizes
        o = {'sizes': sizes or SCS[sid].method == '_check'}
        if found:
            o.update(brief=True)
        if tier == 1:
            o.update(patience=3, share_failed=False, ms=20000)
        return o

    def submit(sid, tier=0):
        st = S[sid]
        st.tier = tier
        st.rec = None
        cost = HINTS['secs'].get(sid, 5) + (1000 if st.sc.method in P.PRIVATE else 0)
        limit = 300 if tier == 0 else 320
        pool.add(sid, prove, (sid, tuple(sorted(no_contract)), opts_for(sid, tier)), limit, cost)

    def need(sc, flt=None, callee=False):
        st = S.get(sc.id)
        if st is None:
            st = S[sc.id] = Scen(sc)
            submit(sc.id)
        if flt is not None:
            st.as_root = flt
        if callee:
            st.as_callee = True

    def bad_root(st):
        out = []
        for o in st.rec.get('obligations', []):
            if not o['ok'] and st.as_root(o) and P.relevant(PID, o) and not (o.get('mset_ok') and P.mset_enough(PID)):
                out.append(o)
        return out

    def bad_callee(st):
        return [o for o in st.rec.get('obligations', []) if not o['ok'] and P.relevant(PID, o)]

    def undecided(rec):
        return rec.get('failed') or rec.get('unsupported')

    pool.add('lemmas', lemmas, (), 200, 0)
    pool.add('axioms', axioms, (), 300, 2000 if THOROUGH else 1)
    ax = {'ok': False, 'text': 'not finished'}
    guess = set()
    for s, f in (only or roots):
        need(s, f)
    for sid in list(S):
        for u in HINTS['uses'].get(sid, []):
            guess.add(tuple(u))
    lem = None

    def callees(keys):
        for cls, m in keys:
            if (cls, m) in no_contract:
                continue
            for s in scs:
                if s.cls == cls and s.method == m and not P.bad(s.name):
                    need(s, None, True)
    callees(g for g in guess if g[1] in P.PRIVATE)
    nsolved = 0
    while pool.busy() and time.time() < proof_end:
        for key, rec in pool.step(proof_end):
            if key == 'lemmas':
                lem = rec
                continue
            if key == 'axioms':
                ax = rec if 'ok' in rec else {'ok': False, 'text': rec.get('failed')}
                continue
            st = S[key]
            st.rec = rec
            log(key, 'tier', st.tier, undecided(rec) or f"{sum(o['ok'] for o in rec['obligations'])}/{len(rec['obligations'])}", round(rec['secs'], 1))
            for o in rec.get('obligations', []):
                if not o['ok'] and VERBOSE:
                    log('      FAILED', o['name'], o['tags'], 'line', o['line'], o['why'], 'mset' if o.get('mset_ok') else '')
            br = bad_root(st) if st.as_root else []
            bc = bad_callee(st) if st.as_callee else []
            if (br or bc or (undecided(rec) and not rec.get('unsupported'))) and st.tier == 0 and not found:
                if rec.get('failed') != 'time limit' or True:
                    submit(key, 1)
                    continue
            if st.as_callee and (bc or undecided(rec)):
                c = (st.sc.cls, st.sc.method)
                if c not in no_contract:
                    log('contract not established:', c)
                    no_contract.add(c)
                    # everything that relied on it has to be proved again
                    failed_contracts[c] = (key, rec, {k for k, s2 in S.items() if s2.rec is not None and c in {tuple(u) for u in s2.rec.get('uses', [])} and not undecided(s2.rec)}
                                           | {k for k in S if c in {tuple(u) for u in HINTS['uses'].get(k, [])}})
                    redo = [k for k, s2 in S.items() if (s2.rec is None or c in {tuple(u) for u in s2.rec.get('uses', [])} or undecided(s2.rec)) and k != key]
                    rs = set(redo)
                    pool.drop(lambda k: k in rs)
                    for k in redo:
                        submit(k, 0)
            elif not undecided(rec):
                callees(tuple(u) for u in rec['uses'])
    late = [k for k, st in S.items() if st.rec is None]
    pool.stop()
    if lem is None:
        lem = lemmas()

    # callee-only scenarios whose contract was given up do not count
    violated, bounded, total, ok = [], [], 0, 0
    used = set()
    todo = [st.sc.id for st in S.values() if st.as_root]
    reach = set()
    while todo:
        k = todo.pop()
        if k in reach:
            continue
        reach.add(k)
        rec = S[k].rec
        if rec is None:
            continue
        for u in rec.get('uses', []):
            for s in scs:
                if (s.cls, s.method) == tuple(u) and not P.bad(s.name) and s.id in S:
                    todo.append(s.id)
    backends, solver_s, inline, paths = {}, 0.0, 0, 0
    functions = set()
    for k in sorted(reach):
        st = S[k]
        rec = st.rec
        if rec is None or undecided(rec):
            bounded.append((k, 'not finished in time' if rec is None else (rec.get('failed') or 'outside the verifier: ' + rec['unsupported'])))
            continue
        functions.add(f'{st.sc.cls}.{st.sc.method}')
        inline += rec['inline']
        paths += rec['paths']
        obs = [o for o in rec['obligations'] if P.relevant(PID, o) and (st.as_callee or st.as_root(o))]
        total += len(obs)
        for o in obs:
            good = o['ok'] or (o.get('mset_ok') and P.mset_enough(PID) and not st.as_callee)
            ok += bool(good)
            solver_s += o['secs']
            b = o['backend'] if good else 'failed'
            backends[b] = backends.get(b, 0) + 1
        if st.as_root:
            for o in bad_root(st):
                violated.append((k, o))
        if st.as_callee and not st.as_root:
            for o in bad_callee(st):
                if (st.sc.cls, st.sc.method) not in no_contract:
                    violated.append((k, o))
    # contracts given up because an obligation failed, where a caller could not be proved without them
    lost = {k for k, _ in bounded}
    for c, (k, rec, relied) in failed_contracts.items():
        fails = [o for o in rec.get('obligations', []) if not o['ok']]
        if fails and not undecided(rec) and relied & lost:
            violated.append((k, fails[0]))
    for o in lem['obligations']:
        total += 1
        ok += o['ok']
        solver_s += o['secs']
        backends[o['backend'] if o['ok'] else 'failed'] = backends.get(o['backend'] if o['ok'] else 'failed', 0) + 1
        if not o['ok']:
            bounded.append((o['name'], 'lemma not proved in time'))
    log('proofs done', f'{ok}/{total}', 'violated', [(k, o['name']) for k, o in violated][:5], 'bounded', bounded[:5])

    # 3. failing input for the failed obligation / bounded stand-in
    if not found and (violated or bounded):
        left = T0 + B_END - time.time()
        keys = [k for k, _ in violated] or [k for k, _ in bounded if k in SCS]
        foci = []
        for k in keys:
            f = P.focus_of(SCS[k].cls, SCS[k].method)
            if f not in foci:
                foci.append(f)
        secs = max(10, min(left - 30, 150 if violated else (60 if not THOROUGH else 150)))
        try:
            found = concrete(secs, (foci + [{}]) if foci else None, 1)
        except Exception as e:   # noqa
            log('search failed to run', repr(e))
        log('focused search', conc, 'FOUND' if found else '')

    # known findings are identified by their input and reported, not alarmed
    code = 0
    lines = []
    if found or violated:
        fdir = os.path.join(HERE, 'findings')
        os.makedirs(fdir, exist_ok=True)
        path = os.path.join(fdir, f'{PID}.json')
        rep = {'property': PID,
               'failed_obligations': [{'scenario': k, 'obligation': o['name'], 'tags': o['tags'], 'line': o['line'], 'solver': o.get('why'), 'goal': o.get('goal'),
                                       'path': o.get('path')} for k, o in violated[:20]],
               'failing_input': found['found'] if found else None, 'message': found['message'] if found else None,
               'replay': f'python3-vt {os.path.join(HERE, "replay.py")} {path}' if found else None}
        json.dump(rep, open(path, 'w'), indent=1)
        if found:
            print('failing input:', json.dumps(found['found'])[:1500])
            print('observed:', found['message'])
        for k, o in violated[:5]:
            print(f'failed obligation: {k}: {o["name"]} (line {o["line"]}; solver: {o.get("why")})')
        if found and not violated:
            print('the verifier named no failed obligation within its time limit')
        print(f'VIOLATION property={PID} replay={path}' + ('' if found else ' no-failing-input-found'))
        code = 1
    elif total == 0:
        print('no obligation was generated', file=sys.stderr)
        code = 2
    for k, why in bounded:
        print(f'bounded (not proved): {k}: {why}')
    ev = {'property': PID, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'proof',
          'coverage': {
              'obligations': total, 'discharged': ok,
              'checker_cmd': f'python3-vt check.py {PID}',
              'trusted_base': TRUSTED + ([] if ax['ok'] else [f'axioms whose Lean statements could not be compared: {ax["text"]}']),
              'axioms': {'statements_match_lean': ax['ok'], 'detail': ax['text'],
                         'proved_by': 'Lean 4 (lean/), rebuilt by setup_cmd and by the thorough tier'},
              'functions_under_contract': sorted(functions),
              'scenarios': len(reach), 'paths': paths, 'inline_proofs': inline,
              'backends': backends, 'solver_seconds': round(solver_s, 1),
              'contracts_not_established': sorted(map(list, no_contract)),
              'bounded_stand_ins': [{'scenario': k, 'reason': w, 'bound': 'random programs, see concrete_cross_check'} for k, w in bounded],
              'concrete_cross_check': {'programs': conc['programs'], 'operations': conc['ops'], 'seconds': round(conc['secs'], 1),
                                       'note': 'bounded; not counted as proved'},
          },
          'assumptions': ASSUMPTIONS,
          'wall_s': round(time.time() - T0, 1), 'violations': 1 if code == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{PID}.json'), 'w'), indent=1)
    if code == 0:
        print(f'{PID}: {ok}/{total} obligations discharged over {len(reach)} scenarios of {len(functions)} functions'
              + (f'; {len(bounded)} scenarios only checked within bounds' if bounded else '') + f' ({time.time() - T0:.0f} s)')
    return code


TRUSTED = [
    'pyvc (pyvc/*.py): symbolic execution of the Python source and generation of obligations',
    'pyvc/logic.py: the smart constructors; its axioms (sequences, buckets, index tree, sorting, sets, maps) are proved in Lean 4 + Mathlib, see lean/',
    'Lean 4.33 kernel with propext, Classical.choice, Quot.sound; tools/lean_gen.py (prints the z3 formulas as Lean statements)',
    'pyvc/builtins_model.py: contracts of the Python built-ins and library functions the code calls',
    'z3 5.3 and cvc5 1.1.2',
]
ASSUMPTIONS = [
    'values are ordered by a strict weak order and == agrees with it as the documentation requires (hash agrees with == for sets and dicts); comparisons and the key function have no side effects and may fail only as modelled (TypeError)',
    'Python integers are mathematical; int(log(m, 2)) is exact for the list lengths that fit in memory (m < 2**48)',
    'single-threaded use; no KeyboardInterrupt/MemoryError in the middle of an operation',
    'no subclass overrides; callers touch the containers only through public methods and _reset',
]

if __name__ == '__main__':
    try:
        rc = main()
    finally:
        pass
    sys.stdout.flush()
    os._exit(rc)
