"""Discharging verification conditions with z3 (in process) and cvc5 (fallback)."""
import os, subprocess, tempfile, time
import z3
import logic as L
from z3 import And, Or, Not, Implies

Z3_TIMEOUT_MS = int(os.environ.get('PYVC_Z3_MS', '8000'))
STATS = {'queries': 0, 'z3_s': 0.0, 'cvc5': 0, 'retries': 0}
_sk = [0]


def fresh_sk(prefix, sort):
    _sk[0] += 1
    return z3.Const(f'{prefix}!{_sk[0]}', sort)


CONFIGS = [
    {'smt.arith.solver': 6},
    {'smt.arith.solver': 6, 'smt.phase_selection': 0},
    {'smt.arith.solver': 2},
    {'smt.arith.solver': 6, 'smt.case_split': 3, 'smt.random_seed': 7},
    {'smt.arith.solver': 6, 'smt.qi.eager_threshold': 100.0},
]


ORDER = {'sortedV_elim', 'bl_below', 'bl_above', 'br_below', 'br_above', 'sortedI_elim', 'blI_below', 'blI_above',
         'brI_below', 'brI_above', 'bl_bound', 'br_bound', 'blI_bound', 'brI_bound', 'flat_sorted'}
SEG = {'flat_seg', 'P_mono', 'flat_at'}
MONO = {'P_mono'}
# (axioms left out, search configuration, share of the time limit)
FS = {'flat_seg', 'flat_at'}
PLAN = [(ORDER | SEG, 0, .25), (ORDER | FS, 0, .25), (SEG, 0, .25), (FS, 0, .25), (MONO, 3, .2), (set(), 0, .3), (MONO, 2, .2), (set(), 1, .3)]
PLAN_LONG = [(ORDER | SEG, 0, .1), (ORDER | FS, 0, .2), (ORDER | {'flat_seg'}, 0, .1), (SEG, 0, .1), (FS, 0, .15), (MONO, 3, .1), (set(), 0, .1), (MONO, 2, .1),
             (set(), 1, .2), (ORDER, 3, .2), (ORDER | FS, 1, .4), (ORDER | SEG, 2, .3), (ORDER | {'flat_seg'}, 2, .3), (SEG, 2, .3), (FS, 1, .3), (FS, 4, .4),
             (MONO, 0, .5), (set(), 3, 1), (MONO, 4, .5), (set(), 4, .5)]


def mk_solver(ms, cfg=0):
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('timeout', int(ms))      # (rlimit would be steadier, but this z3 can then ignore its limits altogether)
    for k, v in CONFIGS[cfg].items():
        s.set(k, v)
    return s


def split_goal(g, hyps):
    """Yield (hyps, atomic goal) pairs; skolemises universal goals."""
    if z3.is_true(g):
        return
    if z3.is_and(g):
        for c in g.children():
            yield from split_goal(c, hyps)
        return
    if z3.is_implies(g):
        a, b = g.children()
        yield from split_goal(b, hyps + [a])
        return
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        for c in g.arg(0).children():
            yield from split_goal(z3.Not(c), hyps)
        return
    if z3.is_quantifier(g) and g.is_forall():
        subs = [fresh_sk('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(subs))
        extra = [L.tn(x) for x in subs if x.sort() == L.I]
        yield from split_goal(body, hyps + extra)
        return
    yield hyps, g


def neg_goal(g):
    """Negation of an atomic goal; sequence/set/map equalities are negated
    extensionally (which is what equality of those values means)."""
    if z3.is_eq(g):
        a, b = g.children()
        for T in L.SeqT.ALL.values():
            if a.sort() == T.sort:
                k = fresh_sk('ext', L.I)
                el = T.at(a, k) != T.at(b, k)
                if T.elem in (L.SVs, L.SIs):
                    el = And(el, neg_goal(T.at(a, k) == T.at(b, k)))
                return And(a != b, L.tn(k), Or(T.len(a) != T.len(b), And(0 <= k, k < T.len(a), el)))
        if a.sort() == L.Set:
            v = fresh_sk('ext', L.V)
            return And(a != b, L.mem(a, v) != L.mem(b, v))
        if a.sort() == L.Map:
            v, w = fresh_sk('ext', L.V), fresh_sk('ext', L.V)
            return And(a != b, Or(L.mem(L.dom(a), v) != L.mem(L.dom(b), v),
                                  And(L.mem(L.dom(a), w), L.mem(L.dom(b), w), L.val(a, w) != L.val(b, w))))
    return Not(g)


def check_unsat(assertions, ms, cfg=0, axs=None):
    s = mk_solver(ms, cfg)
    for ax in (axs if axs is not None else L.relevant_axioms(assertions)):
        s.add(ax[1])
    s.add(*assertions)
    t = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['z3_s'] += time.time() - t
    return r, s


def refuted(facts, ms):
    """Do the facts alone contradict each other (as far as the solver sees)?"""
    return check_unsat(list(facts), ms)[0] == z3.unsat


def cvc5_unsat(solver, ms):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        out = subprocess.run(['cvc5', f'--tlimit={ms}', f.name], capture_output=True, text=True, timeout=ms / 1000 + 20).stdout
    except Exception:
        out = ''
    finally:
        os.unlink(f.name)
    STATS['cvc5'] += 1
    return out.strip().startswith('unsat')


class Result:
    __slots__ = ('ok', 'backend', 'secs', 'why', 'goal', 'nsub')

    def __init__(self, ok, backend, secs, why='', goal='', nsub=0):
        self.ok, self.backend, self.secs, self.why, self.goal, self.nsub = ok, backend, secs, why, goal, nsub


def prove(facts, goal, ms=None, portfolio=True, extra=()):
    """Is `goal` a consequence of facts + theory?  Sound: only `unsat` counts."""
    ms = ms or Z3_TIMEOUT_MS
    t0 = time.time()
    backend = 'z3'
    n = 0
    for hyps, g in split_goal(goal, []):
        n += 1
        if z3.is_true(z3.simplify(g)):
            continue
        base = list(facts) + list(hyps)
        neg = neg_goal(g)
        asserts = base + list(extra) + [neg]
        axs = L.relevant_axioms(asserts)
        ok = False
        # several strategies (which axioms, which search), each sound on its own
        for excl, cfg, frac in (PLAN_LONG if portfolio else PLAN):
            use = [x for x in axs if x[0] not in excl] if excl else axs
            if excl and len(use) == len(axs):
                continue
            r, s = check_unsat(asserts, ms * frac, cfg, use)
            if r == z3.unsat:
                ok = True
                backend = 'z3'
                break
            STATS['retries'] += 1
        if not ok and portfolio and cvc5_unsat(s, ms):
            ok = True
            backend = 'cvc5'
        if not ok:
            why = 'sat' if r == z3.sat else s.reason_unknown()
            return Result(False, backend, time.time() - t0, why, str(g)[:1500], n)
    return Result(True, backend, time.time() - t0, '', '', n)
