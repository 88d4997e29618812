"""Compares pyvc's execution of Python with the real interpreter.

Random straight-line programs over lists, sets, dicts, iterators and library
functions are run (a) by Python on concrete values and (b) by the symbolic
engine on constants that stand for the same values.  On every path of (b) that
the facts do not refute, the outcome (exception type, or result and final
state) must provably be that of (a), and at least one path must remain.  This
exercises the trusted part: the engine and the contracts of the built-ins.
Bounded evidence; programs outside the engine's subset are counted, not hidden.

  python3-vt tools/engine_check.py [SECONDS] [SEED]
"""
import bisect as _bisect
import multiprocessing as mp
import os
import random
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'pyvc'))
import z3
import logic as L
from logic import SV, SI
import engine as E
import solve
import contracts_sl as C
from templates import Templates

HEAD = '''
from bisect import bisect_left, bisect_right, insort
from itertools import chain, repeat, starmap
from functools import reduce
from operator import add, iadd, eq, lt, le
'''


class W:
    """A value: rank decides < and ==, tag tells equal ones apart."""

    def __init__(self, rank, tag):
        self.rank, self.tag = rank, tag

    def __eq__(self, o):
        return self.rank == o.rank

    def __lt__(self, o):
        return self.rank < o.rank

    def __le__(self, o):
        return self.rank <= o.rank

    def __gt__(self, o):
        return self.rank > o.rank

    def __ge__(self, o):
        return self.rank >= o.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return f'w{self.rank}{self.tag}'


def R(r, *xs):
    return r.choice(xs)


def sl(r):
    f = lambda: R(r, '', '', 'i', 'j', '-1', '1', '2', '0', '-2', '9', '-9')
    return f'{f()}:{f()}' if r.random() < .6 else f'{f()}:{f()}:{R(r, "", "1", "-1", "2", "-2", "k")}'


def list_stmt(r):
    L_ = R(r, 'a', 'a', 'b')
    M = R(r, 'a', 'b')
    v = R(r, 'v', 'w')
    i = R(r, 'i', 'j', '0', '-1', '1', 'len(a)')
    return R(r, f'{L_}.append({v})', f'{L_}.insert({i}, {v})', f'{L_}.pop()', f'{L_}.pop({i})', f'del {L_}[{i}]', f'del {L_}[{sl(r)}]',
             f'{L_}.extend({M})', f'{L_}.extend({M}[{sl(r)}])', f'{L_} += {M}', f'{L_}[{i}] = {v}', f'out.append(len({L_}))',
             f'{L_} = {M}[{sl(r)}]', f'{L_} = {M} + {L_}', f'{L_} = {L_} * {R(r, "i", "0", "1", "2", "3")}', f'{L_}.reverse()', f'{L_}.sort()',
             f'{L_} = sorted({M})', f'{L_} = list(reversed({M}))', f'{L_} = list({M})', f'{L_}.clear()', f'{L_} = {M}.copy()',
             f'{L_}.insert({i}, {M}[{i}])', f'{L_} = [x for x in {M}]', f'{L_} = list(chain({M}, {L_}))',
             f'{L_} = list(map(ident, {M}))', f'{L_} = reduce(iadd, [{M}, {L_}], [])', f'{L_} = {M} or {L_}',
             f'{L_} = {M} if i < j else {L_}', f'{L_} = sorted({M} + {L_})',
             f'for x in {M}:\n        out.append(1)', f'{L_} = list(repeat({v}, {R(r, "0", "2", "i")}))',
             f'try:\n        {L_}.pop(i)\n    except IndexError:\n        out.append(7)',
             f'if {v} in {M}:\n        out.append(1)\n    else:\n        out.append(2)',
             f'if {M}:\n        {L_}.append({M}[-1])',
             f'if {M}[0] < {v}:\n        out.append(4)', f'if {M}[i] == {v}:\n        out.append(5)',
             f'if {M} == {L_}:\n        out.append(6)',
             f'{L_}, {M} = {M}, {L_}', f'for n, x in enumerate({M}):\n        out.append(n)',
             f'for x, y in zip(a, b):\n        if x < y:\n            out.append(8)',
             f'for n in range({R(r, "i", "0", "len(a)")}, {R(r, "j", "len(a)", "-1")}, {R(r, "1", "-1", "2", "-2", "k")}):\n        out.append(n)',
             f'b.sort()\n    out.append(bisect_left(b, {v}))', f'b.sort()\n    out.append(bisect_right(b, {v}))',
             f'b.sort()\n    insort(b, {v})', f'{L_}[len({L_}):] = {M}', f'{L_} = list(range(3)) and {M}',
             f'out.extend(range(*slice({R(r, "None", "i", "j")}, {R(r, "None", "i", "j")}, {R(r, "None", "k", "-1", "1")}).indices(len({M}))))',
             )


def int_stmt(r):
    x = R(r, 'i', 'j', 'k')
    y = R(r, 'i', 'j', 'k', '1', '2', '3')
    return R(r, f'{x} += {y}', f'{x} -= {y}', f'{x} = {y} - {x}', f'{x} = {x} >> 1', f'{x} = {x} << 1', f'{x} = {x} & 1', f'{x} = {x} // 2', f'{x} = {x} % 3',
             f'{x} = -{x}', f'{x} = {x} * 3', f'if {x} < {y}:\n        {x} = {y}', f'if {x} <= {y} < 3:\n        {x} += 1', f'{x} = max({x}, {y})',
             f'{x} = min({x}, {y})', f'{x} = abs({x})', f'{x} = 1 if not {x} else {y}', f'{x} = {x} and {y}', f'{x} = {x} or {y}',
             f'if {x} == {y} or not {x}:\n        out.append({x})', f'if {x} != {y} and {y} > 0:\n        out.append({y})', f'{x} = sum([{x}, {y}, 1])',
             f'{x} = 2 ** {R(r, "2", "3")} + {x}', f'{x} = int({x})', f'out.append({x})')


def set_stmt(r):
    S = R(r, 's', 's', 't')
    T = R(r, 's', 't', 'a')
    v = R(r, 'v', 'w')
    op = R(r, '|', '&', '-', '^')
    return R(r, f'{S}.add({v})', f'{S}.remove({v})', f'{S}.discard({v})', f'{S} = s {op} t', f'{S} {op}= t', f'{S} = {S}.union({T}, b)', f'{S} = {S}.difference({T})',
             f'{S} = {S}.intersection({T}, b)', f'{S} = {S}.symmetric_difference({T})', f'{S}.update({T})', f'{S}.difference_update({T})', f'{S}.intersection_update({T})',
             f'{S}.symmetric_difference_update({T})', f'{S}.clear()', f'{S} = {S}.copy()', f'out.append(len({S}))', f'if {v} in {S}:\n        out.append(1)',
             f'if s <= t:\n        out.append(2)', f'if s < t:\n        out.append(3)', f'if s == t:\n        out.append(4)', f'if s.isdisjoint({T}):\n        out.append(5)',
             f'if s.issubset({T}):\n        out.append(6)', f'if s.issuperset({T}):\n        out.append(7)', f'{S} = set({T})', f'b = sorted({S})',
             f'if {S}:\n        out.append(8)', f'{S} = set(x for x in {T})')


def dict_stmt(r):
    v = R(r, 'v', 'w')
    u = R(r, 'v', 'w')
    return R(r, f'd[{v}] = {u}', f'del d[{v}]', f'a.append(d[{v}])', f'a.append(d.pop({v}))', f'a.append(d.pop({v}, {u}))', f'a.append(d.setdefault({v}, {u}))',
             f'a.append(d.get({v}, {u}))', f'out.append(len(d))', f'if {v} in d:\n        out.append(1)', 'd.clear()', 'e = d.copy()\n    d.clear()\n    d = e',
             'd.update(e)', f'd.update([({v}, {u}), ({u}, {v})])', 'd = dict(e)', 'd = dict(zip(a, b))', 'a.extend(sorted(d))', 'd, e = e, d',
             f'try:\n        d.pop({v})\n    except KeyError:\n        out.append(3)', 'if d:\n        out.append(2)', 'e = dict(e)', 'd.update(e.items())',
             f'for x in a:\n        d[x] = {v}', 'a.extend(sorted(d.keys()))', 'd = dict(chain(d.items(), e.items()))')


def nest_stmt(r):
    v = R(r, 'v', 'w')
    M = R(r, 'a', 'b')
    i = R(r, 'i', '0', '-1', '1')
    j = R(r, 'j', '0', '-1', '1')
    mk = R(r, f'n = [a[{sl(r)}], b[{sl(r)}]]', f'n = [a[:], b[:]]', 'n = [list(a)]\n    n.append(b[:])', 'n = []\n    n.append(a[:])',
           f'n = [{M}[q:q + 2] for q in range(0, len({M}), 2)]', 'n = [[v], [w, v]]', 'n = []')
    st = [mk]
    for _ in range(r.randrange(1, 3)):
        st.append(R(r, f'n[{i}].append({v})', f'n[{i}].insert({j}, {v})', f'del n[{i}]', f'del n[{i}][{j}]', f'n.insert({i}, {M}[:])', f'n.append({M}[{sl(r)}])',
                    f'a.append(n[{i}][{j}])', f'out.append(len(n[{i}]))', 'out.append(len(n))', f'n[{i}][{sl(r)}] = []' if 0 else f'del n[{i}][{sl(r)}]',
                    'a = list(chain.from_iterable(n))', 'a = reduce(iadd, n, [])', 'for x in n:\n        a.extend(x)', 'for x in n:\n        a += x',
                    'b = []\n    for x in n:\n        b.extend(x)', 'b = []\n    for x in n:\n        b.append(x[-1])', 'b = [x[-1] for x in n]', 'out.extend(map(len, n))',
                    f'n.pop({i})', f'n[{i}] = {M}[:]', f'x = n[{i}]\n    x.append({v})', f'x = n[{i}]\n    del x[{j}]\n    if not x:\n        del n[{i}]',
                    f'x = n[{i}]\n    y = x[1:]\n    del x[1:]\n    n.insert({i}, y)', f'n[{i}] += {M}', f'n[{i}].extend(n[{j}])', f'n[{i}].extend({M})\n    n[{i}].sort()',
                    f'n[{i}][{j}] = {v}', f'x, = n[{i}:][:1]\n    x.append(v)' if 0 else f'a = n[{i}] + n[{j}]', 'n.reverse()' if 0 else 'n.clear()', f'n[1:] = []' if 0 else f'n[:] = []',
                    'b = list(chain.from_iterable(map(reversed, reversed(n))))', 'b = list(chain(n[0][1:], *n[1:]))' if 0 else 'b = sorted(chain.from_iterable(n))'))
    st.append('a = list(chain.from_iterable(n))')
    return '\n    '.join(st)


def program(r, kind):
    st = []
    for _ in range(r.randrange(1, 4)):
        st.append({'l': list_stmt, 'i': int_stmt, 's': set_stmt, 'd': dict_stmt, 'n': nest_stmt}[r.choice(kind)](r))
    body = '\n    '.join(st)
    return f'def f(a, b, s, t, d, e, v, w, i, j, k, out, ident):\n    {body}\n    return (a, b, s, t, d, e, i, j, k, out)\n'


class Val:
    def __init__(self, eng, ws):
        self.c = {id(w): z3.Const(f'{w!r}', L.V) for w in ws}
        for w in ws:
            eng.assume(L.ord_(self.c[id(w)]) == w.rank)
            eng.assume(L.eqc(self.c[id(w)]) == w.rank)
        cs = list(self.c.values())
        if len(cs) > 1:
            eng.assume(z3.Distinct(*cs))

    def el(self, w):
        return E.ElemV(self.c[id(w)])

    def seq(self, ws):
        s = SV.emp
        for w in ws:
            s = SV.CAT(s, SV.unit(self.c[id(w)])) if not s.eq(SV.emp) else SV.unit(self.c[id(w)])
        return s

    def set(self, ws):
        s = L.semp
        for w in ws:
            s = L.sadd(s, self.c[id(w)])
        return s

    def map(self, d):
        m = L.memp
        for k, x in d.items():
            m = L.mput(m, self.c[id(k)], self.c[id(x)])
        return m


def goal_for(eng, val, got, exp):
    """The statement that the engine's value is the Python value."""
    if isinstance(exp, tuple):
        if not isinstance(got, E.TupleV) or len(got.items) != len(exp):
            return z3.BoolVal(False)
        return z3.And(*[goal_for(eng, val, g, x) for g, x in zip(got.items, exp)])
    if isinstance(exp, bool):
        return got.t == exp if isinstance(got, E.BoolV) else z3.BoolVal(False)
    if isinstance(exp, int):
        if isinstance(got, E.BoolV):
            return z3.If(got.t, 1, 0) == exp
        return got.t == exp if isinstance(got, E.IntV) else z3.BoolVal(False)
    if isinstance(exp, list):
        if not isinstance(got, E.ListRef):
            return z3.BoolVal(False)
        e, s = eng.lst(got)
        if e is None:
            return z3.BoolVal(not exp)
        T = eng.theory(e)
        if not exp:
            return T.LEN(s) == 0
        if e == 'V':
            if not all(isinstance(x, W) for x in exp):
                return z3.BoolVal(False)
            return z3.And(T.LEN(s) == len(exp), *[T.AT(s, z3.IntVal(n)) == val.c[id(x)] for n, x in enumerate(exp)])
        if not all(isinstance(x, int) for x in exp):
            return z3.BoolVal(False)
        return z3.And(T.LEN(s) == len(exp), *[T.AT(s, z3.IntVal(n)) == x for n, x in enumerate(exp)])
    if isinstance(exp, set):
        if not isinstance(got, E.SetRef):
            return z3.BoolVal(False)
        s = eng.heap[got.id].s
        x = z3.Const('x', L.V)
        return z3.ForAll([x], L.mem(s, x) == z3.Or(*[x == val.c[id(w)] for w in exp]))
    if isinstance(exp, dict):
        if not isinstance(got, E.DictRef):
            return z3.BoolVal(False)
        m = eng.heap[got.id].m
        x = z3.Const('x', L.V)
        return z3.And(z3.ForAll([x], L.mem(L.dom(m), x) == z3.Or(*[x == val.c[id(w)] for w in exp])),
                      *[L.val(m, val.c[id(w)]) == val.c[id(y)] for w, y in exp.items()])
    raise E.Unsupported(f'expected {exp!r}')


def one(seed):
    r = random.Random(seed)
    kind = r.choice(['l', 'l', 'li', 'i', 's', 'sl', 'd', 'dl', 'n', 'n', 'nl'])
    ident = 's' in kind or 'd' in kind
    ws = [W(n, 'x') for n in range(5)] if ident else [W(n // 2, 'xy'[n % 2]) for n in range(6)]
    src = program(r, kind)
    pick = lambda n: [r.choice(ws) for _ in range(r.randrange(n))]
    la, lb = pick(4), pick(4)
    sa, sb = (set(pick(4)), set(pick(4))) if ident else (set(), set())
    da, db = ({x: r.choice(ws) for x in pick(3)}, {x: r.choice(ws) for x in pick(3)}) if ident else ({}, {})
    v, w = r.choice(ws), r.choice(ws)
    i, j, k = (r.randrange(-4, 6) for _ in range(3))
    # the interpreter
    ns = {}
    exec(HEAD + src, ns)
    try:
        exp = ('ok', ns['f'](list(la), list(lb), set(sa), set(sb), dict(da), dict(db), v, w, i, j, k, [], lambda x: x))
    except Exception as ex:   # noqa
        exp = (type(ex).__name__, None)
    # the engine
    d = tempfile.mkdtemp(prefix='engcheck')
    try:
        with open(os.path.join(d, 'prog.py'), 'w') as f:
            f.write(HEAD + src.replace(', ident)', ')').replace('map(ident, ', 'map(lambda x: x, '))
        eng = E.Engine(d)
        eng.load('prog')
        eng.contracts_for = C.contracts_for
        eng.spec = Templates(eng)
        res = []

        def run(e):
            e.mode = 'plain'
            e.assume(L.EQ_ORD_PLAIN)
            e.assume(L.isplain)
            if ident:
                e.assume(L.EQ_IDENT)
            val = Val(e, ws)
            mkset = lambda x: E.SetRef(e.alloc(E.SetObj(val.set(x))))
            mkmap = lambda x: E.DictRef(e.alloc(E.DictObj(val.map(x))))
            args = [e.new_list('V', val.seq(la)), e.new_list('V', val.seq(lb)), mkset(sa), mkset(sb), mkmap(da), mkmap(db), val.el(v), val.el(w),
                    E.IntV(i), E.IntV(j), E.IntV(k), e.new_list('I', SI.emp)]
            f = e.modules['prog'].env['f']
            try:
                out = ('ok', e.run_func(f, e.bind_args(f, args, {}, None)))
            except E.PyExc as x:
                out = (x.name, None)
            if exp[0] == 'ok' and out[0] == 'ok':
                g = goal_for(e, val, out[1], exp[1])
            else:
                g = z3.BoolVal(out[0] == exp[0])
            res.append((list(e.facts), g, out[0]))
        try:
            eng.explore(run)
        except E.Unsupported as u:
            return 'unsupported', str(u)[:60], src
        good, wrong, open_ = 0, 0, 0
        for facts, g, o in res:
            p = solve.prove(facts, g, ms=3000, portfolio=False)
            if p.ok:
                good += not solve.refuted(facts, 400)
            elif not solve.refuted(facts, 1500):
                if z3.is_false(z3.simplify(g)) or solve.prove(facts, z3.Not(g), ms=2000, portfolio=False).ok:
                    wrong += 1
                else:
                    open_ += 1
        txt = f'engine: {[o for _, _, o in res]}; python: {exp}; a={la} b={lb} s={sa} t={sb} d={da} e={db} v={v} w={w} i={i} j={j} k={k}'
        # a path with another outcome that the solver cannot refute is only imprecise, as long as the real one is there
        st = 'ok' if good and not (wrong or open_) else 'imprecise' if good else 'unproved' if open_ else 'WRONG' if wrong else 'NO PATH'
        return st, txt, src
    finally:
        os.unlink(os.path.join(d, 'prog.py'))
        os.rmdir(d)


def work(args):
    s0, n, end = args
    out = []
    for q in range(n):
        if time.time() > end:
            break
        try:
            out.append((s0 + q,) + one(s0 + q))
        except Exception as ex:   # noqa
            import traceback
            out.append((s0 + q, 'crash', traceback.format_exc()[-400:], ''))
    return out


def main():
    secs = float(sys.argv[1]) if len(sys.argv) > 1 else 60
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    end = time.time() + secs
    tally, bad, uns = {}, [], {}
    with mp.Pool(min(8, os.cpu_count() or 1)) as p:
        for rs in p.imap_unordered(work, [(seed * 10 ** 7 + n * 20, 20, end) for n in range(100000 if secs > 5000 else int(secs * 40))]):
            for s, st, txt, src in rs:
                tally[st] = tally.get(st, 0) + 1
                if st == 'unsupported':
                    uns[txt] = uns.get(txt, 0) + 1
                elif st not in ('ok', 'imprecise', 'unproved') or '-v' in sys.argv and st != 'ok':
                    bad.append((st, s, txt, src))
    for st, s, txt, src in bad[:25]:
        print(f'{st} (program {s}): {txt}\n{src}')
    print('outside the subset:', sorted(uns.items(), key=lambda x: -x[1])[:12])
    print('ENGINE', tally)
    return 1 if any(b[0] in ('WRONG', 'NO PATH') for b in bad) else 0


if __name__ == '__main__':
    sys.exit(main())
