"""Proving one function against its contract (one scenario = one shape of
arguments; everything else symbolic)."""
import json
import os
import sys
import time
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI
import solve
import engine as E
from engine import (IntV, KeyV, BoolV, ElemV, NONE, TupleV, ListRef, SetRef, ObjRef, IterRef, SliceV, KeyFuncV, OpaqueV,
                    PyExc, Unsupported, PathEnd)
from rep import Rep
import rep as REP
import contracts_sl as C
from templates import Templates


class Scenario:
    """cls.method called with arguments of a given shape."""

    def __init__(self, cls, method, name, build, layer='sl'):
        self.cls, self.method, self.name, self.build, self.layer = cls, method, name, build, layer

    @property
    def id(self):
        return f'{self.cls}.{self.method}[{self.name}]'


def setup(eng, cls):
    eng.mode = 'key' if cls == 'SortedKeyList' else 'plain'
    eng.assume(L.EQ_ORD_KEY if eng.mode == 'key' else L.EQ_ORD_PLAIN)
    if eng.mode == 'plain':
        eng.assume(L.isplain)


# ------------------------------------------------------------ argument shapes
def elem(eng, nm='v', bad=None):
    v = ElemV(eng.fresh(nm, L.V))
    if bad:
        v.bad = bad
    return v


def int_(eng, nm='i'):
    return IntV(eng.fresh_int(nm))


def keyval(eng, nm='k'):
    return KeyV(eng.fresh_int(nm))


def mklist(eng):
    return eng.new_list('V', eng.fresh('arg', L.SVs))


def mkiter(eng):
    s = eng.fresh('arg', L.SVs)
    return eng.new_iter('V', s, [])


def mkset(eng):
    return SetRef(eng.alloc(E.SetObj(eng.fresh('argset', L.Set))))


ITERABLES = {'list': lambda eng, me: mklist(eng), 'iterator': lambda eng, me: mkiter(eng), 'set': lambda eng, me: mkset(eng),
             'itself': lambda eng, me: me}


def opt_int(eng, nm):
    return NONE if eng.decide(2) == 0 else int_(eng, nm)


def opt_elem(eng, nm):
    return NONE if eng.decide(2) == 0 else elem(eng, nm)


def opt_key(eng, nm):
    return NONE if eng.decide(2) == 0 else keyval(eng, nm)


def bool_(eng, nm):
    return BoolV(eng.fresh(nm, L.B))


def sl_scenarios():
    out = []
    for cls in ('SortedList', 'SortedKeyList'):
        def S(m, nm, build):
            out.append(Scenario(cls, m, nm, build))
        S('add', 'value', lambda e, me: [elem(e)])
        S('add', 'incomparable value', lambda e, me: [elem(e, bad='cmp')])
        for k, f in ITERABLES.items():
            S('update', k, lambda e, me, f=f: [f(e, me)])
            S('__radd__', k, lambda e, me, f=f: [f(e, me)])
            S('__add__', k, lambda e, me, f=f: [f(e, me)])
            S('__iadd__', k, lambda e, me, f=f: [f(e, me)])
            if k != 'itself':
                S('__init__', k, lambda e, me, f=f: [f(e, me)])
        S('__init__', 'nothing', lambda e, me: [])
        for m in ('add', '__contains__', 'discard', 'remove', 'count', 'bisect_left', 'bisect_right'):
            S(m, 'a comparison fails', lambda e, me: [elem(e, bad='maybe')])
        S('index', 'a comparison fails', lambda e, me: [elem(e, bad='maybe')])
        S('clear', '', lambda e, me: [])

        def load_arg(e, me):
            i = int_(e, 'load')
            e.assume(i.t >= 1)
            return [i]
        S('_reset', 'load', load_arg)
        S('_check', '', lambda e, me: [])
        S('__reduce__', '', lambda e, me: [])

        def N(nm, build):
            out.append(Scenario(cls, 'construct', nm, build, 'new'))
        for k, f in ITERABLES.items():
            if k == 'itself':
                f = lambda e, me: e.new_folded(e.modules['sortedlist'].env[cls], e.fresh('G', L.SVs), key=me if cls == 'SortedKeyList' else None)
                k = 'sorted list'
            N(k, lambda e, kf, f=f: [f(e, kf)] + ([kf] if kf else []))
            N(k + ', key=', lambda e, kf, f=f: [f(e, kf), {'key': kf or NONE}])
        N('key=', lambda e, kf: [{'key': kf or NONE}])
        if cls == 'SortedList':
            N('nothing', lambda e, kf: [])
            N('subclass with a key', lambda e, kf: [mklist(e), {'key': KeyFuncV()}])
        else:
            for k in ('list', 'iterator', 'set'):
                N('SortedList(' + k + ', key=)', lambda e, kf, f=ITERABLES[k]: ['SortedList', f(e, kf), {'key': kf}])
            N('SortedList(list, key)', lambda e, kf: ['SortedList', mklist(e), kf])
            N('SortedList(key=)', lambda e, kf: ['SortedList', {'key': kf}])
        for m in ('__contains__', 'discard', 'remove', 'count', 'bisect_left', 'bisect_right'):
            S(m, 'value', lambda e, me: [elem(e)])
            if m == 'bisect_right':
                S('bisect', 'value', lambda e, me: [elem(e)])
            S(m, 'incomparable value', lambda e, me: [elem(e, bad='cmp')])
        S('pop', 'index', lambda e, me: [int_(e)])
        S('pop', 'default', lambda e, me: [])
        S('index', 'value', lambda e, me: [elem(e)])
        S('index', 'value, start', lambda e, me: [elem(e), int_(e, 'start')])
        S('index', 'value, None, stop', lambda e, me: [elem(e), NONE, int_(e, 'stop')])
        for q in range(4):
            def bounds(e, me, q=q):
                st, sp = int_(e, 'start'), int_(e, 'stop')
                e.assume(st.t >= 0 if q & 1 else st.t < 0)
                e.assume(sp.t >= 0 if q & 2 else sp.t < 0)
                return [elem(e), st, sp]
            S('index', f'value, {"start" if q & 1 else "-start"}, {"stop" if q & 2 else "-stop"}', bounds)
        S('index', 'incomparable value', lambda e, me: [elem(e, bad='cmp'), opt_int(e, 'start'), opt_int(e, 'stop')])
        for m in ('__getitem__', '__delitem__'):
            S(m, 'int', lambda e, me: [int_(e)])
            S(m, 'slice', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), NONE)])
            S(m, 'slice step 1', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), IntV(1))])
            S(m, 'slice step -1', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), IntV(-1))])
            S(m, 'slice step 0', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), IntV(0))])

            def other_step(e, me):
                st = int_(e, 'step')
                e.assume(And(st.t != 0, st.t != 1, st.t != -1))
                return [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), st)]
            S(m, 'slice other step', other_step)
        S('__setitem__', 'int', lambda e, me: [int_(e), elem(e)])
        S('__setitem__', 'slice', lambda e, me: [SliceV(NONE, NONE, NONE), mklist(e)])
        S('reverse', '', lambda e, me: [])
        S('append', 'value', lambda e, me: [elem(e)])
        S('extend', 'list', lambda e, me: [mklist(e)])
        S('insert', 'index, value', lambda e, me: [int_(e), elem(e)])
        S('__iter__', '', lambda e, me: [])
        S('__reversed__', '', lambda e, me: [])
        S('__len__', '', lambda e, me: [])
        S('islice', 'start, stop, reverse', lambda e, me: [opt_int(e, 'a'), opt_int(e, 'b'), bool_(e, 'rev')])
        S('irange', 'minimum, maximum, inclusive, reverse', lambda e, me: [opt_elem(e, 'lo'), opt_elem(e, 'hi'), TupleV([bool_(e, 'i0'), bool_(e, 'i1')]), bool_(e, 'rev')])
        S('copy', '', lambda e, me: [])
        S('__copy__', '', lambda e, me: [])
        for m in ('__mul__', '__rmul__', '__imul__'):
            S(m, 'num', lambda e, me: [int_(e)])
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            S(f'__{op}__', 'list', lambda e, me: [mklist(e)])
            S(f'__{op}__', 'not a sequence', lambda e, me: [OpaqueV('non-sequence', {'*': False})])
            S(f'__{op}__', 'sorted list', lambda e, me: [e.new_folded(e.modules['sortedlist'].env['SortedList'], e.fresh('G', L.SVs))] if e.mode == 'plain' else
              [e.new_folded(e.heap[me.id].cls, e.fresh('G', L.SVs))])
        S('key', '', lambda e, me: [])
        if cls == 'SortedKeyList':
            S('irange_key', 'min_key, max_key, inclusive, reverse', lambda e, me: [opt_key(e, 'lo'), opt_key(e, 'hi'), TupleV([bool_(e, 'i0'), bool_(e, 'i1')]), bool_(e, 'rev')])
            S('bisect_key_left', 'key', lambda e, me: [keyval(e)])
            S('bisect_key_right', 'key', lambda e, me: [keyval(e)])
            S('bisect_key', 'key', lambda e, me: [keyval(e)])
        # representation-level functions
        S('_pos', 'idx', lambda e, me: [int_(e)])
        S('_loc', 'pos, idx', lambda e, me: [int_(e), int_(e)])
        S('_build_index', '', lambda e, me: [])
        S('_islice', 'positions', lambda e, me: [int_(e), int_(e), int_(e), int_(e), bool_(e, 'rev')])
        S('_delete', 'pos, idx', lambda e, me: [int_(e), int_(e)])
    return out


def all_scenarios():
    import contracts_col
    return sl_scenarios() + contracts_col.scenarios()


# ------------------------------------------------------------------ the run
class Entry:
    pass


def find_method(eng, clsname, method):
    mod = {'SortedList': 'sortedlist', 'SortedKeyList': 'sortedlist', 'SortedSet': 'sortedset', 'SortedDict': 'sorteddict',
           'SortedKeysView': 'sorteddict', 'SortedItemsView': 'sorteddict', 'SortedValuesView': 'sorteddict'}[clsname]
    cls = eng.modules[mod].env[clsname]
    m = cls.lookup(method)
    if m is None:
        return cls, None
    return cls, C.unwrap(m)


def run_new(eng, sc):
    """Calling the class."""
    setup(eng, sc.cls)
    mod = eng.modules['sortedlist']
    want = mod.env[sc.cls]
    kf = KeyFuncV() if sc.cls == 'SortedKeyList' else None
    args = sc.build(eng, kf)
    cls = want
    if args and isinstance(args[0], str):
        cls = mod.env[args[0]]
        args = args[1:]
    if sc.name.startswith('subclass'):
        cls = E.ClassV('Sub', [want], {}, mod)
    kw = {}
    if args and isinstance(args[-1], dict):
        kw, args = args[-1], args[:-1]
    F = SV.emp
    before = []
    if args:
        F = C.peek_seq(eng, args[0])
        if isinstance(args[0], ListRef):
            before.append((args[0].id, eng.heap[args[0].id].seq))
    eng.root = (sc.cls, sc.method)
    eng.root_shape = None
    exc = o = None
    try:
        o = eng.call(cls, list(args), kw)
    except PyExc as e:
        exc = e
    eng.post_tag = ()
    expect = 'TypeError' if sc.name.startswith('subclass') else 'ok'
    got = exc.name if exc is not None else 'ok'
    eng.reached(expect)
    if got != expect:
        eng.oblige(f'must {"raise " + expect if expect != "ok" else "not raise"}, but {"raises " + got if exc else "returns"}', BoolVal(False), ('raise', 'unexpected'))
        raise PathEnd()
    if exc is not None:
        return
    if not isinstance(o, ObjRef) or eng.heap[o.id].cls is not want:
        eng.oblige(f'the result is a {sc.cls}', BoolVal(False), ('ret',))
        raise PathEnd()
    eng.oblige(f'the result is a {sc.cls}', BoolVal(True), ('ret',))
    ob = eng.heap[o.id]
    al = C.aliases(eng, o.id)
    if al:
        eng.oblige(f'the result is independent ({al})', BoolVal(False), ('ret',))
    eng.fold_obj(o, 'result object')
    if kf is not None and ob.meta.get('key') is not kf:
        eng.oblige('key function of the result', BoolVal(False), ('ret',))
    check_content(eng, ob.F, L.ssort(F), ('ret',), 'content of the result')
    for lid, sq in before:
        if not eng.heap[lid].seq.eq(sq):
            eng.oblige('argument list is not changed', eng.heap[lid].seq == sq, ('frame', 'args'))


def run_sl(eng, sc):
    setup(eng, sc.cls)
    cls, f = find_method(eng, sc.cls, sc.method)
    if not isinstance(f, E.FuncV):
        raise Unsupported(f'{sc.id}: not a function')
    init = sc.method == '__init__'
    if init:
        me = eng.new_instance(cls)
        eng.heap[me.id].meta['in_init'] = True
        eng.heap[me.id].meta['key'] = KeyFuncV()
    else:
        me = eng.new_folded(cls, eng.fresh('F', L.SVs), key=KeyFuncV())
    args = sc.build(eng, me)
    if init and cls.name == 'SortedKeyList':
        args = (args or [NONE]) + [KeyFuncV()]
    env = eng.bind_args(f, [me] + args, {}, None)
    ob = eng.heap[me.id]
    if init:
        # entry view for the contract
        ghost = eng.new_folded(cls, SV.emp, key=KeyFuncV())
        cx = C.Cx(eng, ghost, env)
        cx.self_ = me
        load0 = None
    else:
        eng.unfold(me)
        cx = C.Cx(eng, me, env)
        load0 = ob.fold_load
    sp = C.SPEC.get(sc.method)
    rsp = C.REPSPEC.get(sc.method)
    eng.root = (sc.cls, sc.method)
    eng.root_shape = C.shape(env)
    r0 = None if init else Rep(eng, ob)
    if rsp is not None and sp is None:
        for nm, g in rsp.pre(cx, r0):
            eng.assume(g)
        if sc.method == '_islice':
            pass
        rcases = rsp.cases(cx, r0)
        cases = None
    else:
        cases = sp.cases(cx)
    ids0 = dict(ob.meta.get('ids', {}))
    cx.ids = ids0
    arg_seqs = [(v.id, eng.heap[v.id].seq) for v in args if isinstance(v, ListRef)]
    env_for_run = dict(env)
    exc = ret = None
    try:
        ret = eng.run_func(f, env_for_run)
    except PyExc as e:
        exc = e
    eng.cur_line = f.node.lineno
    eng.post_tag = ()
    if eng.blown == 'maybe':
        if exc is None or exc.name != 'TypeError':
            eng.oblige(f'a failed comparison is reported, but {"raises " + exc.name if exc else "returns"}', BoolVal(False), ('raise', 'missing'))
            raise PathEnd()
        cases = [C.Case(C.T, raises='TypeError')]
    elif any(getattr(v, 'bad', False) == 'maybe' for v in args):
        raise PathEnd()
    # which case of the contract applies
    if cases is not None:
        for c in cases:
            if z3.is_true(c.guard) or eng.branch(c.guard):
                break
        else:
            raise PathEnd()
        outcome = c.raises or 'ok'
    else:
        for outcome, guard, rt in rcases:
            if z3.is_true(guard) or eng.branch(guard):
                break
        c = None
    eng.reached(outcome)
    got = exc.name if exc is not None else 'ok'
    if not (got == outcome or (exc is not None and outcome != 'ok' and E.exc_isa(got, outcome))):
        eng.oblige(f'must {"raise " + outcome if outcome != "ok" else "not raise"}, but {"raises " + got if exc else "returns"}',
                   BoolVal(False), ('raise', 'missing' if exc is None else 'unexpected'))
        raise PathEnd()
    unchanged = outcome != 'ok'
    utag = eng.post_tag = ('unchanged',) if unchanged else ()
    # state
    expF = cx.F
    mutates = (sp or rsp).mutates
    if c is not None and c.F is not None:
        expF = c.F
    if rsp is not None and sp is None and rsp.mutates and outcome == 'ok':
        expF = rsp.newF(cx, r0)
    query = not mutates
    if init and exc is not None:
        return
    if ob.folded:
        gotF = ob.F
        if query:
            eng.oblige('a query does not replace the internal lists', BoolVal(False), ('frame',))
        check_content(eng, gotF, expF, utag)
    else:
        missing = [a for a in (REP.KEYED if eng.is_keyed(ob) else REP.PLAIN) if a not in ob.attrs]
        extra = set(ob.attrs) - set(REP.KEYED if eng.is_keyed(ob) else REP.PLAIN)
        if missing or extra:
            raise Unsupported(f'fields {missing} missing, {sorted(extra)} outside the described representation')
        r = Rep(eng, ob)
        if r0 is not None and r.LL.eq(r0.LL):
            gotF = cx.F
        else:
            gotF = L.flat(r.LL)
        if query and r0 is not None:
            same = r.LL.eq(r0.LL) and r.MX.eq(r0.MX) and (not r.keyed or r.KK.eq(r0.KK)) and r.n.eq(r0.n)
            if not same:
                eng.oblige('a query leaves the content alone', And(r.LL == r0.LL, r.n == r0.n, r.MX == r0.MX), ('frame',))
            for a, i in ids0.items():
                if ob.attrs[a].id != i:
                    # replacing a list object is harmless unless an iterator reads it
                    pass
        check_content(eng, gotF, expF, utag)
        if outcome == 'ok' or not eng.is_clean(ob):
            if init:
                ob.meta['rep'] = None
            eng.wf_obligations(ob, 'afterwards')
        if ob.attrs.get('_key') is not None and not isinstance(ob.attrs['_key'], KeyFuncV):
            eng.oblige('key function kept', BoolVal(False), ('frame', 'key'))
    load1 = ob.fold_load if ob.folded else ob.attrs['_load'].t
    want = c.load if c is not None and c.load is not None else load0
    if want is None:
        want = C.default_load(eng, ob)
    if not load1.eq(want):
        eng.oblige('load factor', load1 == want, ('load',))
    if not init and sp is not None and sp.mutates is False:
        pass
    for lid, sq in arg_seqs:
        if not eng.heap[lid].seq.eq(sq):
            eng.oblige('argument list is not changed', eng.heap[lid].seq == sq, ('frame', 'args'))
    # result
    if outcome == 'ok':
        if c is not None:
            for item in c.ret.check(cx, ret):
                if len(item) == 3:
                    check_content(eng, item[2][1], item[2][2], ('ret',), item[0])
                else:
                    eng.oblige(item[0], item[1], ('ret',))
        elif isinstance(rt, C.Ret):
            for nm, g in rt.check(cx, ret):
                eng.oblige(nm, g, ('ret',))
        else:
            eng.oblige('result', rt(ret), ('ret',))
        if getattr(rsp, 'index_built', False) and sp is None:
            r = Rep(eng, ob)
            eng.oblige('the positional index exists', SI.len(r.IX) >= 1, ('ret', 'wf', 'index'))


def check_content(eng, got, exp, tags=(), name='content'):
    if got.eq(exp):
        return
    eng.oblige(name, got == exp, ('content',) + tuple(tags))
    if eng.obls and eng.obls[-1].name == name and eng.fresh_region:
        eng.obls[-1].mset = (got, exp)


_HINTS = None


def hints(sid, what='inline'):
    global _HINTS
    if _HINTS is None:
        try:
            _HINTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')))
        except OSError:
            _HINTS = {}
    return set(_HINTS.get(what, {}).get(sid, ()))


def reachable(eng):
    """The outcomes some explored path reaches under assumptions that the
    solver does not refute (a guard against contradictory assumptions)."""
    out = {}
    for outcome, _, facts in eng.reach:
        n, hit = out.get(outcome, (0, False))
        if hit or n >= 24:
            continue
        out[outcome] = (n + 1, not solve.refuted(facts, 300))
    return sorted(o for o, (n, hit) in out.items() if hit)


def prove_scenario(sc, repo='/repo/src/sortedcontainers', no_contract=(), ms=None, verbose=False, sizes=True, patience=1, share_failed=True, brief=False):
    """Returns a JSON-able record of what was proved."""
    t0 = time.time()
    rec = {'id': sc.id, 'cls': sc.cls, 'method': sc.method, 'obligations': [], 'uses': [], 'paths': 0, 'inline': 0,
           'unsupported': None, 'secs': 0}
    eng = E.Engine(repo)
    try:
        for m in ('sortedlist', 'sortedset', 'sorteddict'):
            eng.load(m)
        eng.no_contract = set(no_contract)
        eng.sizes = sizes
        eng.expected = hints(sc.id)
        eng.patience = patience
        eng.share_failed = share_failed
        eng.contracts_for = C.contracts_for
        eng.spec = Templates(eng)
        import contracts_col
        runner = {'sl': run_sl, 'new': run_new, 'col': contracts_col.run_col}[sc.layer]
        obls = eng.explore(lambda e: runner(e, sc))
    except Unsupported as u:
        rec['unsupported'] = str(u)
        obls = []
        if verbose:
            import traceback
            traceback.print_exc()
    rec['paths'] = eng.npaths
    rec['uses'] = sorted(eng.uses)
    rec['explore_secs'] = time.time() - t0
    rec['inline'] = len(eng.inline_proofs)
    rec['inline_list'] = [(n, ln, round(r.secs, 3)) for n, ln, r, _ in eng.inline_proofs]
    rec['loops'] = [(k[0], [c.name for c in v.cands or []]) for k, v in eng.loops.items()]
    if not rec['unsupported']:
        rec['reach'] = reachable(eng)
        gone = hints(sc.id, 'reach') - set(rec['reach'])
        if gone:
            rec['unsupported'] = f'no path reaches the outcome {sorted(gone)[0]}'
            rec['secs'] = time.time() - t0
            return rec
    seen = {}
    failures = 0
    for o in obls:
        if failures >= 3:
            rec['stopped'] = True
            break
        key = (o.goal.get_id(), tuple(f.get_id() for f in o.facts), o.name)
        if key in seen:
            continue
        r = solve.prove(o.facts, o.goal, ms=4000 if brief else ms, portfolio=not brief)
        seen[key] = r
        d = {'name': o.name, 'tags': list(o.tags), 'line': o.line, 'ok': r.ok, 'backend': r.backend, 'secs': round(r.secs, 3), 'n': r.nsub}
        if not r.ok:
            failures += 1
            d['why'], d['goal'] = r.why, r.goal
            d['path'] = list(o.path)
            if o.mset is not None:
                # the order of ties may be unspecified: same multiset, in order
                q = z3.Const('occ_v', L.V)
                got, exp = o.mset
                d['mset_ok'] = solve.prove(o.facts, And(L.sortedV(got), ForAll([q], L.occ(got, q) == L.occ(exp, q))), ms=4000 if brief else ms, portfolio=not brief).ok
        rec['obligations'].append(d)
    rec['secs'] = time.time() - t0
    rec['functions'] = []
    return rec


if __name__ == '__main__':
    pats = sys.argv[1:]
    scs = [s for s in all_scenarios() if not pats or any(p in s.id for p in pats)]
    tot = 0
    for s in scs:
        r = prove_scenario(s, repo=os.environ.get('SRC', '/repo/src/sortedcontainers'), verbose=len(scs) <= 3)
        bad = [o for o in r['obligations'] if not o['ok']]
        st = 'UNSUP ' + r['unsupported'] if r['unsupported'] else ('FAIL' if bad else 'ok')
        print(f"{s.id:60s} {st:6s} obl={len(r['obligations'])} inline={r['inline']} paths={r['paths']} {r['explore_secs']:.1f}+{r['secs']-r['explore_secs']:.1f}s uses={len(r['uses'])}", flush=True)
        for o in bad[:6]:
            print('     ', o['name'], o['tags'], 'line', o['line'], o['why'], o['path'], o['goal'][:300])
