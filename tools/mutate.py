#!/usr/bin/env python3
"""Sensitivity and soundness test of the proofs (development tool, not a check).

Makes small syntactic changes to the functions of /repo/src/sortedcontainers, one
at a time in a scratch copy, and reports those that every proof touching the
changed statement still accepts.  An accepted change is either without effect on
the contracts' behaviour or a hole in the verifier; --conc runs the concrete
oracle on it to tell the two apart.

usage: mutate.py OUT.json [--conc] [--only FUNC,...] [--sample N]
"""
import ast, copy, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('pyvc', 'conc', 'driver'):
    sys.path.insert(0, os.path.join(HERE, d))
SRC = '/repo/src/sortedcontainers'
MODS = ('sortedlist', 'sortedset', 'sorteddict')

SWAP_CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
            ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
SWAP_BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
            ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}
NAMES = {'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left', 'insort': 'bisect_right', '_maxes': '_keys', '_keys': '_lists', 'minimum': 'maximum', 'maximum': 'minimum',
         'min_key': 'max_key', 'max_key': 'min_key', 'min_pos': 'max_pos', 'max_pos': 'min_pos', 'min_idx': 'max_idx', 'max_idx': 'min_idx', 'start': 'stop', 'stop': 'start',
         'add': 'discard', 'union': 'intersection', 'intersection': 'difference', 'difference': 'symmetric_difference', 'update': 'difference_update',
         'difference_update': 'update', 'intersection_update': 'update', '_key_': 'x', 'key': 'value', 'value': 'key', '_list_add': '_list_remove', '_list_remove': '_list_add'}
METHOD_NAMES = set(NAMES)


def mutants(mod):
    """[(function, line, description, new source)]"""
    text = open(f'{SRC}/{mod}.py').read()
    tree = ast.parse(text)
    out = []
    local = {}

    def emit(fn, node, desc, apply, undo):
        apply()
        try:
            out.append((mod, fn, node.lineno, desc, ast.unparse(tree)))
        finally:
            undo()

    def field(fn, st, o, name, new, desc):
        old = getattr(o, name)
        emit(fn, st, desc, lambda: setattr(o, name, new), lambda: setattr(o, name, old))

    def walk_expr(fn, st, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Compare):
                for i, op in enumerate(n.ops):
                    for new in SWAP_CMP.get(type(op), []):
                        emit(fn, st, f'{type(op).__name__}->{new.__name__}', lambda n=n, i=i, new=new: n.ops.__setitem__(i, new()), lambda n=n, i=i, op=op: n.ops.__setitem__(i, op))
            elif isinstance(n, ast.BinOp):
                for new in SWAP_BIN.get(type(n.op), []):
                    field(fn, st, n, 'op', new(), f'{type(n.op).__name__}->{new.__name__}')
            elif isinstance(n, ast.BoolOp):
                field(fn, st, n, 'op', ast.And() if isinstance(n.op, ast.Or) else ast.Or(), 'and<->or')
                for i in range(len(n.values)):
                    vs = list(n.values)
                    emit(fn, st, f'drop operand {i}', lambda n=n, vs=vs, i=i: setattr(n, 'values', vs[:i] + vs[i + 1:]) if len(vs) > 2 else setattr(n, 'values', [vs[1 - i]] * 2),
                         lambda n=n, vs=vs: setattr(n, 'values', vs))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                field(fn, st, n, 'op', ast.UAdd(), 'not-> +') if False else None
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                field(fn, st, n, 'value', not n.value, 'flip bool')
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                field(fn, st, n, 'value', n.value + 1, f'{n.value}->{n.value + 1}')
                if n.value > 0:
                    field(fn, st, n, 'value', n.value - 1, f'{n.value}->{n.value - 1}')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES and NAMES[n.id] in local.get(fn, ()):
                field(fn, st, n, 'id', NAMES[n.id], f'{n.id}->{NAMES[n.id]}')
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                field(fn, st, n, 'attr', NAMES[n.attr], f'.{n.attr}->.{NAMES[n.attr]}')
            elif isinstance(n, ast.Call) and len(n.args) == 2:
                a = list(n.args)
                emit(fn, st, 'swap arguments', lambda n=n, a=a: setattr(n, 'args', [a[1], a[0]]), lambda n=n, a=a: setattr(n, 'args', a))
            elif isinstance(n, ast.IfExp):
                t = n.test
                field(fn, st, n, 'test', ast.UnaryOp(ast.Not(), t), 'negate ifexp')

    def exprs(st):
        for f, v in ast.iter_fields(st):
            if isinstance(v, ast.expr):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.expr):
                        yield x
                    elif isinstance(x, ast.withitem):
                        yield x.context_expr

    def block(fn, body):
        for i, st in enumerate(body):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                func(fn + '.' + st.name if fn else st.name, st)
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if not isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
                emit(fn, st, f'delete {type(st).__name__}', lambda b=body, i=i: b.__setitem__(i, ast.Pass()), lambda b=body, i=i, st=st: b.__setitem__(i, st))
            if isinstance(st, (ast.If, ast.While)):
                field(fn, st, st, 'test', ast.UnaryOp(ast.Not(), st.test), 'negate test')
            if isinstance(st, ast.AugAssign):
                for new in SWAP_BIN.get(type(st.op), []):
                    field(fn, st, st, 'op', new(), 'augop')
            for e in exprs(st):
                walk_expr(fn, st, e)
            if i + 1 < len(body) and not isinstance(body[i + 1], (ast.FunctionDef, ast.ClassDef)):
                nx = body[i + 1]

                def sw(b=body, i=i, x=st, y=nx):
                    b[i], b[i + 1] = y, x

                def un(b=body, i=i, x=st, y=nx):
                    b[i], b[i + 1] = x, y
                emit(fn, st, 'swap with next', sw, un)
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None):
                    block(fn, getattr(st, f))
            for h in getattr(st, 'handlers', []):
                block(fn, h.body)

    def func(name, fd):
        if isinstance(fd, ast.ClassDef):
            for st in fd.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    func(name + '.' + st.name, st)
            return
        local[name] = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(fd) if isinstance(x, ast.arg)} | {'bisect_left', 'bisect_right'}
        block(name, fd.body)
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            func(st.name, st)
    return out


def baseline(sid):
    import verify
    sc = [s for s in verify.all_scenarios() if s.id == sid][0]
    import engine as E
    cov = set()
    orig = E.Engine.exec_stmt

    def ex(self, st, fr):
        if hasattr(st, 'lineno'):
            mod = getattr(getattr(fr.func, 'module', None), 'name', None) if fr.func is not None else None
            cov.add((mod, st.lineno))
        return orig(self, st, fr)
    E.Engine.exec_stmt = ex
    r = verify.prove_scenario(sc)
    E.Engine.exec_stmt = orig
    return sid, sorted(map(str, [])), list(cov), r['secs'], bool(r['unsupported'])


class TO(BaseException):
    pass


def trial(args):
    k, (mod, fn, line, desc, text), sids, budget = args
    import signal
    import verify
    tmp = tempfile.mkdtemp(prefix='mut')
    pk = f'{tmp}/sortedcontainers'
    shutil.copytree(SRC, pk, ignore=shutil.ignore_patterns('__pycache__'))
    open(f'{pk}/{mod}.py', 'w').write(text)
    scs = {s.id: s for s in verify.all_scenarios()}
    t0 = time.time()
    verdict, why, n = 'survived', '', 0

    def h(*a):
        raise TO()
    signal.signal(signal.SIGALRM, h)
    unsup = None
    try:
        for sid in sids:
            if time.time() - t0 > budget:
                unsup = unsup or 'budget'
                break
            signal.alarm(20)
            try:
                r = verify.prove_scenario(scs[sid], repo=pk, brief=True)
            except TO:
                unsup = f'{sid}: timeout'
                continue
            except Exception as e:   # noqa
                unsup = f'{sid}: crash {e!r}'
                continue
            finally:
                signal.alarm(0)
            n += 1
            if r['unsupported']:
                unsup = f"{sid}: {r['unsupported']}"
                if r['unsupported'].startswith(('name ', 'field [')):
                    verdict = 'trivial'
                    break
                if 'undecided' in sys.argv:
                    continue
                continue
            bad = [o for o in r['obligations'] if not o['ok'] and not o.get('mset_ok')]
            if bad:
                verdict, why = 'killed', f"{sid}: {bad[0]['name']}"
                break
        if verdict == 'survived' and unsup:
            verdict, why = 'undecided', unsup
        conc = None
        if verdict == 'survived' and '--conc' in sys.argv:
            import subprocess
            code = ("import sys; sys.path.insert(0, %r)\nimport search\n"
                    "for i in range(1, 17):\n"
                    "    r = search.worker((%r, 'C%%02d' %% i, 5, 1.2, {}))\n"
                    "    if r['found'] is not None:\n        print('C%%02d' %% i, r['message']); break\n") % (HERE + '/conc', tmp)
            try:
                q = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=120)
                conc = (q.stdout.strip() or q.stderr.strip()[-200:])[:200] or None
            except subprocess.TimeoutExpired:
                conc = 'hangs'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return k, mod, fn, line, desc, verdict, why, n, conc, round(time.time() - t0, 1)


if __name__ == '__main__':
    out = sys.argv[1]
    import verify
    ids = [s.id for s in verify.all_scenarios()]
    with mp.Pool(8, maxtasksperchild=1) as p:
        base = list(p.imap_unordered(baseline, ids, chunksize=1))
    cover = {}
    for sid, _, cov, secs, un in base:
        for mod, ln in cov:
            cover.setdefault((mod, ln), []).append((secs, sid))
    ms = [m for mod in MODS for m in mutants(mod)]
    ms = [m for m in ms if not m[1].endswith(('_check', '__repr__', 'identity'))]
    if '--only' in sys.argv:
        pats = sys.argv[sys.argv.index('--only') + 1].split(',')
        ms = [m for m in ms if any(x in m[1] for x in pats)]
    if '--sample' in sys.argv:
        random.seed(int(os.environ.get('VERIF_SEED', '1')))
        ms = random.sample(ms, min(len(ms), int(sys.argv[sys.argv.index('--sample') + 1])))
    print(len(ms), 'mutants', flush=True)
    tasks = []
    for k, m in enumerate(ms):
        c = sorted(cover.get((m[0], m[2]), cover.get((None, m[2]), [])))
        tasks.append((k, m, [s for _, s in c], 25))
    random.Random(3).shuffle(tasks)
    res = []
    with mp.Pool(8, maxtasksperchild=4) as p:
        for r in p.imap_unordered(trial, tasks, chunksize=1):
            res.append(r)
            if len(res) % 100 == 0:
                print('...', len(res), flush=True)
            if r[5] not in ('killed', 'trivial'):
                print(r[5].upper(), f'{r[1]}:{r[3]}', r[2], r[4], '|', r[6], '| n', r[7], '| conc:', r[8], flush=True)
    from collections import Counter
    print(Counter(r[5] for r in res))
    json.dump(res, open(out, 'w'))
