"""Search for a concrete program on which the real code violates a property."""
import importlib
import json
import os
import random
import sys
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))


def load_mods(src):
    if src not in sys.path:
        sys.path.insert(0, src)
    return {m: importlib.import_module('sortedcontainers.' + m) for m in ('sortedlist', 'sorteddict', 'sortedset')}


def consts(src):
    """Integer constants of the source, as sizes and positions to try."""
    import ast
    out = set()
    for m in ('sortedlist', 'sorteddict', 'sortedset'):
        try:
            t = ast.parse(open(f'{src}/sortedcontainers/{m}.py').read())
        except Exception:   # noqa
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= abs(n.value) <= 20000:
                out |= {n.value, n.value - 1, n.value + 1}
    return sorted(out)


def runner_of(kind):
    if kind in ('sl', 'skl'):
        import seqrun
        return seqrun
    import setrun
    return setrun


LISTS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10')


def shrink(prog, prop, mods, limit=20):
    end = time.time() + limit
    R = runner_of(prog['kind'])

    def bad(p):
        try:
            return R.replay(p, prop, mods)
        except Exception:   # noqa
            return None
    if bad(prog) is None:
        return prog
    changed = True
    while changed and time.time() < end:
        changed = False
        for part in ('ops', 'init'):
            xs = prog[part]
            lo = 0 if part == 'ops' else 1
            size = max(1, (len(xs) - lo) // 2)
            while size >= 1 and time.time() < end:
                i = lo
                while i < len(prog[part]) and time.time() < end:
                    q = dict(prog)
                    q[part] = prog[part][:i] + prog[part][i + size:]
                    if bad(q):
                        prog = q
                        changed = True
                    else:
                        i += size
                size //= 2
    return prog


def worker(args):
    src, prop, seed, secs, focus = args
    sys.path.insert(0, HERE)
    mods = load_mods(src)
    rng = random.Random(seed)
    cs = consts(src)
    end = time.time() + secs
    programs = ops = 0
    distinct = set()
    import seqrun
    try:
        import setrun
    except ImportError:
        setrun = None
    while time.time() < end:
        fk = focus.get('kind')
        lists = prop in LISTS or (prop == 'C16' and (fk in ('sl', 'skl') or (fk is None and rng.random() < .4)))
        gen = (seqrun.SeqGen if lists else setrun.MapGen)(rng, prop, focus, cs)
        try:
            prog, msg, n = gen.drive(mods, rng.choice([3, 8, 20, 40]), end)
        except RecursionError:
            continue
        programs += 1
        ops += n
        if prog is not None:
            prog = shrink(prog, prop, mods)
            m2 = runner_of(prog['kind']).replay(prog, prop, mods)
            return {'found': prog, 'message': m2 or msg, 'programs': programs, 'ops': ops, 'reproducible': m2 is not None}
    return {'found': None, 'programs': programs, 'ops': ops}


def search(src, prop, seed, secs, focus=None, procs=8):
    """First counterexample, or None; with the number of programs run."""
    t0 = time.time()
    tot_p = tot_o = 0
    found = None
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as pool:
        foci = focus if isinstance(focus, list) else [focus or {}]
        jobs = [(src, prop, seed * 1000003 + 17 * i + 1, secs, foci[i % len(foci)]) for i in range(procs)]
        for r in pool.imap_unordered(worker, jobs):
            tot_p += r['programs']
            tot_o += r['ops']
            if r['found'] is not None:
                found = r
                pool.terminate()
                break
    return {'found': found, 'programs': tot_p, 'ops': tot_o, 'secs': time.time() - t0}


if __name__ == '__main__':
    src, prop, seed, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    r = search(src, prop, seed, secs)
    print(json.dumps(r)[:3000])
