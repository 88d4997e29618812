"""Contracts of SortedList / SortedKeyList.

Every contract is a list of cases (guard, outcome) over the ordered content F
of the list before the call; it is what the method is proved against and what
callers may assume.  Nothing here looks at how the method is written.
"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI
import engine as E
from engine import (IntV, KeyV, BoolV, ElemV, NONE, NOTIMPL, TupleV, ListRef, SetRef, DictRef, ObjRef, IterRef,
                    SliceV, KeyFuncV, OpaqueV, PyExc, Unsupported)
from rep import Rep


class NoContract(Exception):
    """The arguments are outside what the contract describes."""


# ---------------------------------------------------------------- outcomes
class Ret:
    def make(self, cx):
        raise NotImplementedError

    def check(self, cx, v):
        """[(name, goal)]"""
        raise NotImplementedError


class RNone(Ret):
    def make(self, cx):
        return NONE

    def check(self, cx, v):
        return [('returns None', BoolVal(isinstance(v, E.NoneT)))]


class RAny(Ret):
    def make(self, cx):
        return E.Poison('unspecified result')

    def check(self, cx, v):
        return []


class RNotImpl(Ret):
    def make(self, cx):
        return NOTIMPL

    def check(self, cx, v):
        return [('returns NotImplemented', BoolVal(v is NOTIMPL))]


class RInt(Ret):
    def __init__(self, t):
        self.t = t

    def make(self, cx):
        return IntV(z3.simplify(self.t))

    def check(self, cx, v):
        if isinstance(v, BoolV):
            v = IntV(If(v.t, 1, 0))
        if not isinstance(v, IntV):
            return [('returns an int', BoolVal(False))]
        return [('result', v.t == self.t)]


class RBool(Ret):
    def __init__(self, t):
        self.t = t

    def make(self, cx):
        return BoolV(self.t)

    def check(self, cx, v):
        if isinstance(v, BoolV):
            return [('result', v.t == self.t)]
        return [('returns a bool', BoolVal(False))]


class RElem(Ret):
    def __init__(self, t):
        self.t = t

    def make(self, cx):
        return ElemV(self.t)

    def check(self, cx, v):
        if isinstance(v, ElemV):
            return [('result', v.t == self.t)]
        if isinstance(v, E.NoneT):
            from builtins_model import NONE_V
            return [('result', NONE_V == self.t)]
        return [('returns an element', BoolVal(False))]


class RSelf(Ret):
    def make(self, cx):
        return cx.self_

    def check(self, cx, v):
        return [('returns the same object', BoolVal(isinstance(v, ObjRef) and v.id == cx.self_.id))]


class RKey(Ret):
    def make(self, cx):
        return cx.eng.heap[cx.self_.id].meta.get('key') if cx.keyed else NONE

    def check(self, cx, v):
        return [('key function', BoolVal(isinstance(v, KeyFuncV) if cx.keyed else isinstance(v, E.NoneT)))]


class RSeq(Ret):
    """A list or an iterator delivering exactly `seq`."""

    def __init__(self, kind, seq, elem='V', pointwise=None):
        self.kind, self.seq, self.elem, self.pw = kind, seq, elem, pointwise

    def make(self, cx):
        seq = self.seq
        if self.pw is not None and seq is None:
            n, fn = self.pw
            seq = cx.eng.fresh('sel', L.SVs)
            i = z3.Int('pi')
            cx.eng.assume(SV.len(seq) == n)
            cx.eng.assume(ForAll([i], Implies(And(0 <= i, i < n), SV.at(seq, i) == fn(i)), patterns=[SV.at(seq, i)]))
        if self.kind == 'list':
            return cx.eng.new_list(self.elem, seq)
        return cx.eng.new_iter(self.elem, seq, [('obj', cx.self_.id, cx.F)] if cx.self_ is not None else [])

    def check(self, cx, v):
        eng = cx.eng
        if self.kind == 'list' and not isinstance(v, ListRef):
            return [('returns a list', BoolVal(False))]
        if self.kind == 'iter' and not isinstance(v, IterRef):
            return [('returns an iterator', BoolVal(False))]
        if isinstance(v, IterRef):
            src = eng.iter_source(v)
            e, s = eng.src_seq(src)
        else:
            e, s = eng.lst(v)
            h = eng.heap[v.id]
            out0 = []
            # a returned list must not be one of the internal lists
            ob = eng.heap[cx.self_.id]
            inner = isinstance(h, E.InnerLoc) or v.id in cx.ids.values() or v.id in [x.id for x in ob.attrs.values() if isinstance(x, ListRef)]
            if inner:
                out0.append(('returned list is not internal storage', BoolVal(False)))
            if out0:
                return out0
        if e is None:
            e, s = 'V', SV.emp
        if e != self.elem:
            return [('kind of items', BoolVal(False))]
        if self.pw is not None:
            n, fn = self.pw
            i = z3.Int('pi')
            return [('number of items', SV.LEN(s) == n),
                    ('items', ForAll([i], Implies(And(0 <= i, i < n), SV.at(s, i) == fn(i))))]
        return [('items', s == self.seq)]


def aliases(eng, oid):
    """Internal lists that an object shares with another one."""
    ob = eng.heap[oid]
    if ob.folded:
        return None
    mine = {a: x.id for a, x in ob.attrs.items() if isinstance(x, ListRef)}
    for k, o in eng.heap.items():
        if k == oid or not isinstance(o, E.InstObj):
            continue
        theirs = {x.id: a for a, x in o.attrs.items() if isinstance(x, ListRef)}
        for a, i in mine.items():
            if i in theirs:
                return f'{a} is {theirs[i]} of another container'
            sh = getattr(eng.heap[i], 'shared', None)
            if sh and any(x[0] in theirs for x in sh):
                return f'{a} holds the same inner lists as another container'
    return None


class RNew(Ret):
    """A new sorted list of the same kind with content F."""

    def __init__(self, F):
        self.F = F

    def make(self, cx):
        cls = cx.eng.heap[cx.self_.id].cls
        return cx.eng.new_folded(cls, self.F, key=cx.eng.heap[cx.self_.id].meta.get('key'))

    def check(self, cx, v):
        eng = cx.eng
        if not isinstance(v, ObjRef) or v.id == cx.self_.id:
            return [('returns a new object', BoolVal(False))]
        ob = eng.heap[v.id]
        if ob.cls is not eng.heap[cx.self_.id].cls:
            return [('same kind of container (key kept)', BoolVal(False))]
        al = aliases(eng, v.id)
        if al:
            return [(f'the result is independent ({al})', BoolVal(False))]
        eng.fold_obj(v, 'result object')
        res = []
        if cx.keyed and not isinstance(ob.meta.get('key'), KeyFuncV):
            res.append(('key function kept', BoolVal(False)))
        return res + [('content of the result', ob.F == self.F, ('mset', ob.F, self.F))]


class RRebuild(RNew):
    """(callable, arguments) that builds an equal, independent container."""

    def make(self, cx):
        return E.Poison('unspecified result')

    def check(self, cx, v):
        eng = cx.eng
        if not (isinstance(v, TupleV) and len(v.items) == 2 and isinstance(v.items[1], TupleV)):
            return [('returns (callable, arguments)', BoolVal(False))]
        for a in v.items[1].items:
            if isinstance(a, ListRef) and (isinstance(eng.heap[a.id], E.InnerLoc) or any(
                    isinstance(o, E.InstObj) and any(isinstance(x, ListRef) and x.id == a.id for x in o.attrs.values()) for o in eng.heap.values())):
                return [('the pickled values are a list of their own', BoolVal(False))]
        try:
            o = eng.call(v.items[0], v.items[1].items, {})
        except PyExc as e:
            return [(f'rebuilding raises {e.name}', BoolVal(False))]
        return RNew.check(self, cx, o)


class Case:
    def __init__(self, guard, ret=None, F=None, raises=None, load=None):
        self.guard, self.ret, self.F, self.raises, self.load = guard, ret or RNone(), F, raises, load


T = BoolVal(True)
# contracts that do not speak about the order: they hold of every sorted list
ANY_ORDER = ('__iter__', '__len__')


class Cx:
    """One call: receiver, its content, arguments."""

    def __init__(self, eng, self_, env, name=None):
        self.eng, self.self_, self.env = eng, self_, env
        ob = eng.heap[self_.id]
        if ob.meta.get('foreign') and name not in ANY_ORDER:
            raise Unsupported(f'a sorted list with another order ({name})')
        self.ob = ob
        self.keyed = eng.is_keyed(ob)
        self.mode = 'key' if self.keyed else 'plain'
        if ob.folded:
            self.F, self.load = ob.F, ob.fold_load
        else:
            self.F, self.load = eng.cur_view(ob), ob.attrs['_load'].t
        self.n = SV.len(self.F)
        self.ids = dict(ob.meta.get('ids', {}))
        eng.assume(self.n >= 0)

    def a(self, name, *kinds):
        v = self.env.get(name)
        if v is None:
            raise NoContract(name)
        if isinstance(v, BoolV) and IntV in kinds and BoolV not in kinds:
            v = IntV(If(v.t, 1, 0))
        if kinds and not isinstance(v, kinds):
            raise NoContract(f'{name}: {v!r}')
        return v

    def elem(self, name):
        v = self.a(name, ElemV)
        return v.t

    def bad(self, *names):
        """Do the arguments contain a value that cannot be compared?"""
        return any(getattr(self.env.get(nm), 'bad', False) == 'cmp' for nm in names)

    def rank(self, name):
        v = self.a(name, ElemV, KeyV)
        return L.ord_(v.t) if isinstance(v, ElemV) else v.t

    def seq(self, name):
        return peek_seq(self.eng, self.a(name))

    def norm(self, name):
        v = self.a(name, IntV)
        return v.t, If(v.t < 0, v.t + self.n, v.t)


def peek_seq(eng, v):
    """Sequence of values an iterable argument delivers (without consuming it)."""
    if isinstance(v, IterRef):
        io = eng.heap[v.id]
        if io.used:
            raise NoContract('used iterator')
        if io.elems is not None:
            raise NoContract('iterator of tuples')
        if io.seq is None and getattr(io, 'src', None) is not None:
            e, s = io.src.elem, io.src.seq
            if s is None:
                raise NoContract('iterator')
            return s
        if io.seq is None:
            return SV.emp
        if io.elem != 'V':
            raise NoContract('iterator of another kind')
        return io.seq
    if isinstance(v, ListRef):
        e, s = eng.lst(v)
        if e is None:
            return SV.emp
        if e != 'V':
            raise NoContract('list of another kind')
        return s
    if isinstance(v, TupleV):
        if not v.items:
            return SV.emp
        raise NoContract('tuple')
    if isinstance(v, SetRef):
        return L.SEQOF(eng.heap[v.id].s)
    if isinstance(v, DictRef):
        return L.SEQOF(L.DOM(eng.heap[v.id].m))
    if isinstance(v, ObjRef):
        ob = eng.heap[v.id]
        if eng.is_sl(ob):
            return eng.cur_view(ob)
        if 'view_seq' in ob.meta:
            return ob.meta['view_seq']
    raise NoContract(f'iterable {v!r}')


def consume_arg(eng, v):
    if isinstance(v, IterRef):
        io = eng.heap[v.id]
        eng.check_deps(io.deps)
        io.used = True


# ---------------------------------------------------------------- helpers
def slice_terms(cx, sl):
    """(start, stop, step-kind, step term) after slice.indices(n)."""
    n = cx.n
    st = sl.st
    if isinstance(st, E.NoneT):
        k = 1
        stt = IntVal(1)
    elif isinstance(st, IntV):
        c = z3.simplify(st.t)
        stt = c
        k = c.as_long() if z3.is_int_value(c) and c.as_long() in (1, -1, 0) else None
    else:
        raise NoContract('slice step')

    def bound(v, d_pos, d_neg, neg):
        if isinstance(v, E.NoneT):
            return If(neg, d_neg, d_pos)
        if isinstance(v, BoolV):
            v = IntV(If(v.t, 1, 0))
        if not isinstance(v, IntV):
            raise NoContract('slice bound')
        i = v.t
        lower = If(neg, IntVal(-1), IntVal(0))
        upper = If(neg, n - 1, n)
        j = i + n
        return If(i < 0, If(j < lower, lower, j), If(i > upper, upper, i))
    neg = stt < 0
    a = z3.simplify(bound(sl.a, IntVal(0), n - 1, neg))
    b = z3.simplify(bound(sl.b, n, IntVal(-1), neg))
    return a, b, k, stt


def sub(F, a, b):
    return SV.sl(F, a, b)


def not_found(cx):
    return Case(T, raises='ValueError')


# ---------------------------------------------------------------- contracts
SPEC = {}


class Spec:
    def __init__(self, name, cases, mutates=False, family_inline=False, params=(), keyed_only=False, plain_only=False):
        self.name, self.cases, self.mutates, self.family_inline = name, cases, mutates, family_inline
        self.params = params


def spec(name, mutates=False, **kw):
    def deco(fn):
        SPEC[name] = Spec(name, fn, mutates, **kw)
        return fn
    return deco


@spec('add', True)
def _(cx):
    v = cx.elem('value')
    new = SV.ins(cx.F, L.br(cx.F, L.ord_(v)), v)
    if cx.bad('value'):
        if cx.keyed:
            # an uncallable or incomparable key: rejected when compared
            return [Case(cx.n > 0, raises='TypeError'), Case(T, F=new)]
        return [Case(cx.n > 0, raises='TypeError'), Case(T, F=new)]
    return [Case(T, F=new)]


@spec('update', True)
def _(cx):
    s = cx.seq('iterable')
    return [Case(T, F=L.SSORT(SV.CAT(cx.F, s)))]


@spec('__init__', True)
def _(cx):
    it = cx.a('iterable')
    s = SV.emp if isinstance(it, E.NoneT) else peek_seq(cx.eng, it)
    return [Case(T, F=L.SSORT(s))]


@spec('clear', True, family_inline=True)
def _(cx):
    return [Case(T, F=SV.emp)]


@spec('_reset', True)
def _(cx):
    ld = cx.a('load', IntV).t
    return [Case(ld >= 1, F=cx.F, load=ld)]


@spec('__reduce__')
def _(cx):
    return [Case(T, RRebuild(cx.F))]


@spec('_check')
def _(cx):
    return [Case(cx.load >= 4), Case(T, raises='AssertionError')]


@spec('__contains__')
def _(cx):
    v = cx.elem('value')
    if cx.bad('value'):
        return [Case(cx.n > 0, raises='TypeError'), Case(T, RBool(BoolVal(False)))]
    return [Case(T, RBool(L.firstf(cx.F, v, 0) < cx.n))]


@spec('discard', True)
def _(cx):
    v = cx.elem('value')
    if cx.bad('value'):
        return [Case(cx.n > 0, raises='TypeError'), Case(T)]
    f = L.firstf(cx.F, v, 0)
    return [Case(f < cx.n, F=SV.rem(cx.F, f)), Case(T)]


@spec('remove', True)
def _(cx):
    v = cx.elem('value')
    if cx.bad('value'):
        return [Case(cx.n > 0, raises='TypeError'), Case(T, raises='ValueError')]
    f = L.firstf(cx.F, v, 0)
    return [Case(f < cx.n, F=SV.rem(cx.F, f)), Case(T, raises='ValueError')]


@spec('pop', True)
def _(cx):
    i, j = cx.norm('index')
    ok = And(i >= -cx.n, i < cx.n)
    return [Case(ok, RElem(SV.at(cx.F, j)), F=SV.rem(cx.F, j)), Case(T, raises='IndexError')]


@spec('__delitem__', True)
def _(cx):
    ix = cx.a('index', IntV, SliceV)
    F, n = cx.F, cx.n
    if isinstance(ix, SliceV):
        a, b, k, st = slice_terms(cx, ix)
        if k == 0:
            return [Case(T, raises='ValueError')]
        if k == 1:
            return [Case(a < b, RAny(), F=SV.cat(sub(F, IntVal(0), a), sub(F, b, n))), Case(T, RAny(), F=F)]
        if k == -1:
            return [Case(a > b, RAny(), F=SV.cat(sub(F, IntVal(0), b + 1), sub(F, a + 1, n))), Case(T, RAny(), F=F)]
        m = L.rlen(a, b, st)
        cx.eng.assume(m >= 0)
        return [Case(T, RAny(), F=L.rms(F, a, m, st, m))]
    i, j = cx.norm('index')
    return [Case(And(i >= -n, i < n), RAny(), F=SV.rem(F, j)), Case(T, raises='IndexError')]


@spec('__getitem__')
def _(cx):
    ix = cx.a('index', IntV, SliceV)
    F, n = cx.F, cx.n
    if isinstance(ix, SliceV):
        a, b, k, st = slice_terms(cx, ix)
        if k == 0:
            return [Case(T, raises='ValueError')]
        if k == 1:
            return [Case(a < b, RSeq('list', sub(F, a, b))), Case(T, RSeq('list', SV.emp))]
        if k == -1:
            return [Case(a > b, RSeq('list', SV.rev(sub(F, b + 1, a + 1)))), Case(T, RSeq('list', SV.emp))]
        m = L.rlen(a, b, st)
        cx.eng.assume(m >= 0)
        return [Case(T, RSeq('list', L.selseq(F, a, m, st), pointwise=(m, lambda i: SV.at(F, a + L.mulf(i, st)))))]
    i, j = cx.norm('index')
    return [Case(And(i >= -n, i < n), RElem(SV.at(F, j))), Case(T, raises='IndexError')]


def raises_ni(cx):
    return [Case(T, raises='NotImplementedError')]


for _n in ('__setitem__', 'reverse', 'append', 'extend', 'insert'):
    SPEC[_n] = Spec(_n, raises_ni)


@spec('__iter__')
def _(cx):
    return [Case(T, RSeq('iter', cx.F))]


@spec('__reversed__')
def _(cx):
    return [Case(T, RSeq('iter', SV.rev(cx.F)))]


@spec('__len__')
def _(cx):
    return [Case(T, RInt(cx.n))]


def ranged(cx, a, b, rev):
    """cases for an iterator over positions a..b of F, forwards or backwards"""
    s = sub(cx.F, a, b)
    r = rev.t if isinstance(rev, BoolV) else None
    if r is None:
        raise NoContract('reverse')
    return [Case(And(a < b, Not(r)), RSeq('iter', s)), Case(And(a < b, r), RSeq('iter', SV.rev(s))), Case(T, RSeq('iter', SV.emp))]


@spec('islice')
def _(cx):
    sl = SliceV(cx.a('start', IntV, E.NoneT), cx.a('stop', IntV, E.NoneT), NONE)
    a, b, k, st = slice_terms(cx, sl)
    return ranged(cx, a, b, cx.a('reverse', BoolV))


def irange_bounds(cx, lo, hi, inc):
    F = cx.F
    if not isinstance(inc, TupleV) or len(inc.items) != 2 or not all(isinstance(x, BoolV) for x in inc.items):
        raise NoContract('inclusive')
    i0, i1 = [x.t for x in inc.items]
    rk = lambda v: L.ord_(v.t) if isinstance(v, ElemV) else v.t
    a = IntVal(0) if isinstance(lo, E.NoneT) else If(i0, L.bl(F, rk(lo)), L.br(F, rk(lo)))
    b = cx.n if isinstance(hi, E.NoneT) else If(i1, L.br(F, rk(hi)), L.bl(F, rk(hi)))
    # a value that is None means no bound
    if isinstance(lo, ElemV):
        a = If(lo.t == E.NONE_V, 0, a)
    if isinstance(hi, ElemV):
        b = If(hi.t == E.NONE_V, cx.n, b)
    return a, b


@spec('irange')
def _(cx):
    lo, hi = cx.a('minimum', ElemV, E.NoneT), cx.a('maximum', ElemV, E.NoneT)
    if cx.bad('minimum', 'maximum'):
        raise NoContract('bad')
    a, b = irange_bounds(cx, lo, hi, cx.a('inclusive'))
    return ranged(cx, a, b, cx.a('reverse', BoolV))


@spec('irange_key')
def _(cx):
    lo, hi = cx.a('min_key', KeyV, E.NoneT), cx.a('max_key', KeyV, E.NoneT)
    if cx.bad('min_key', 'max_key'):
        raise NoContract('bad')
    a, b = irange_bounds(cx, lo, hi, cx.a('inclusive'))
    return ranged(cx, a, b, cx.a('reverse', BoolV))


def bis(arg, b):
    def f(cx):
        k = cx.rank(arg)
        if cx.bad(arg):
            return [Case(cx.n > 0, raises='TypeError'), Case(T, RInt(IntVal(0)))]
        return [Case(T, RInt(b(cx.F, k)))]
    return f


SPEC['bisect_left'] = Spec('bisect_left', bis('value', L.bl))
SPEC['bisect_right'] = Spec('bisect_right', bis('value', L.br))
SPEC['bisect'] = Spec('bisect', bis('value', L.br))
SPEC['bisect_key'] = Spec('bisect_key', bis('key', L.br))
SPEC['bisect_key_left'] = Spec('bisect_key_left', bis('key', L.bl))
SPEC['bisect_key_right'] = Spec('bisect_key_right', bis('key', L.br))


@spec('count')
def _(cx):
    v = cx.elem('value')
    if cx.bad('value'):
        return [Case(cx.n > 0, raises='TypeError'), Case(T, RInt(IntVal(0)))]
    return [Case(T, RInt(L.cnt(cx.F, v, cx.n)))]


@spec('index')
def _(cx):
    v = cx.elem('value')
    n = cx.n
    st, sp = cx.a('start', IntV, E.NoneT), cx.a('stop', IntV, E.NoneT)
    a = IntVal(0) if isinstance(st, E.NoneT) else st.t
    b = n if isinstance(sp, E.NoneT) else sp.t
    a = If(a < 0, If(a + n < 0, IntVal(0), a + n), a)
    b = If(b < 0, b + n, b)
    b = If(b > n, n, b)
    a, b = z3.simplify(a), z3.simplify(b)
    if cx.bad('value'):
        return [Case(a < b, raises='TypeError'), Case(T, raises='ValueError')]
    f = L.firstf(cx.F, v, a)
    return [Case(And(a < b, f < b), RInt(f)), Case(T, raises='ValueError')]


@spec('copy')
def _(cx):
    return [Case(T, RNew(cx.F))]


@spec('__add__')
def _(cx):
    return [Case(T, RNew(L.SSORT(SV.CAT(cx.F, cx.seq('other')))))]


@spec('__iadd__', True)
def _(cx):
    return [Case(T, RSelf(), F=L.SSORT(SV.CAT(cx.F, cx.seq('other'))))]


SPEC['__radd__'] = Spec('__radd__', lambda cx: [Case(T, RNew(L.SSORT(SV.CAT(cx.seq('other'), cx.F))))])
SPEC['__copy__'] = Spec('__copy__', SPEC['copy'].cases)


@spec('__mul__')
def _(cx):
    return [Case(T, RNew(L.SSORT(SV.rep(cx.F, cx.a('num', IntV).t))))]


@spec('__imul__', True)
def _(cx):
    return [Case(T, RSelf(), F=L.SSORT(SV.rep(cx.F, cx.a('num', IntV).t)))]


SPEC['__rmul__'] = Spec('__rmul__', SPEC['__mul__'].cases)


def cmp_cases(op):
    def f(cx):
        o = cx.a('other')
        if isinstance(o, OpaqueV):
            return [Case(T, RNotImpl())]
        G = peek_seq(cx.eng, o)
        F, n, m = cx.F, cx.n, SV.len(G)
        d = L.fdiff(F, G)
        cx.eng.assume(m >= 0)
        nat = L.nord if cx.keyed else L.ord_
        x, y = SV.at(F, d), SV.at(G, d)
        differ = And(d < n, d < m)
        same = And(n == m, d == n)
        if op == 'eq':
            return [Case(T, RBool(same))]
        if op == 'ne':
            return [Case(T, RBool(Not(same)))]
        rel = {'lt': lambda p, q: p < q, 'le': lambda p, q: p <= q, 'gt': lambda p, q: p > q, 'ge': lambda p, q: p >= q}[op]
        return [Case(differ, RBool(rel(nat(x), nat(y)))), Case(T, RBool(rel(n, m)))]
    return f


for _op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    SPEC[f'__{_op}__'] = Spec(f'__{_op}__', cmp_cases(_op))


@spec('key')
def _(cx):
    return [Case(T, RKey())]


# ------------------------------------------------- representation-level specs
class RepSpec:
    """Contract stated on the buckets rather than on F."""
    mutates = False
    family_inline = False


class S_pos(RepSpec):
    name = '_pos'

    def pre(self, cx, r):
        return []

    def args(self, cx):
        return [cx.a('idx', IntV).t]

    def cases(self, cx, r):
        i, = self.args(cx)
        n = cx.n

        def ret(v):
            if not (isinstance(v, TupleV) and len(v.items) == 2 and all(isinstance(x, IntV) for x in v.items)):
                return BoolVal(False)
            p, j = [x.t for x in v.items]
            return And(0 <= p, p < SSV.LEN(r.LL), 0 <= j, j < SV.len(SSV.at(r.LL, p)),
                       L.P(r.LL, p) + j == If(i < 0, i + n, i))
        return [('ok', And(i >= -n, i < n), ret), ('IndexError', T, None)]

    def make(self, cx):
        return TupleV([IntV(cx.eng.fresh_int('pos')), IntV(cx.eng.fresh_int('idx'))])


class S_loc(RepSpec):
    name = '_loc'

    def args(self, cx):
        return [cx.a('pos', IntV).t, cx.a('idx', IntV).t]

    def pre(self, cx, r):
        p, j = self.args(cx)
        return [('bucket position in range', And(0 <= p, p < SSV.LEN(r.LL)))]

    def cases(self, cx, r):
        p, j = self.args(cx)

        def ret(v):
            if not isinstance(v, IntV):
                return BoolVal(False)
            return v.t == L.P(r.LL, p) + j
        return [('ok', T, ret)]

    def make(self, cx):
        return IntV(cx.eng.fresh_int('loc'))


class S_build(RepSpec):
    name = '_build_index'

    def args(self, cx):
        return []

    def pre(self, cx, r):
        return [('index is empty', SI.LEN(r.IX) == 0), ('there are at least two buckets', SSV.LEN(r.LL) >= 2)]

    def cases(self, cx, r):
        return [('ok', T, lambda v: T)]

    def make(self, cx):
        return NONE

    index_built = True


class S_islice(RepSpec):
    name = '_islice'

    def args(self, cx):
        return [cx.a(x, IntV).t for x in ('min_pos', 'min_idx', 'max_pos', 'max_idx')] + [cx.a('reverse', BoolV).t]

    def pre(self, cx, r):
        p, i, q, j, rv = self.args(cx)
        n = SSV.LEN(r.LL)
        return [('start position', And(0 <= p, p < n, 0 <= i, i <= SV.len(SSV.at(r.LL, p)))),
                ('stop position', And(0 <= q, q < n, 0 <= j, j <= SV.len(SSV.at(r.LL, q))))]

    def cases(self, cx, r):
        p, i, q, j, rv = self.args(cx)
        a, b = L.P(r.LL, p) + i, L.P(r.LL, q) + j
        s = sub(L.flat(r.LL), a, b)
        mk = lambda seq: RSeq('iter', seq)
        return [('ok', And(a < b, Not(rv)), mk(s)), ('ok', And(a < b, rv), mk(SV.rev(s))), ('ok', T, mk(SV.emp))]

    def make(self, cx):
        return None


class S_delete(RepSpec):
    name = '_delete'
    mutates = True

    def args(self, cx):
        return [cx.a('pos', IntV).t, cx.a('idx', IntV).t]

    def pre(self, cx, r):
        p, j = self.args(cx)
        return [('bucket position in range', And(0 <= p, p < SSV.LEN(r.LL))),
                ('index in range', And(0 <= j, j < SV.len(SSV.at(r.LL, p))))]

    def newF(self, cx, r):
        p, j = self.args(cx)
        return SV.rem(cx.F, L.P(r.LL, p) + j)

    def cases(self, cx, r):
        return [('ok', T, lambda v: BoolVal(isinstance(v, E.NoneT)))]

    def make(self, cx):
        return NONE


REPSPEC = {c.name: c() for c in (S_pos, S_loc, S_build, S_islice, S_delete)}


# ---------------------------------------------------------------- application
def contracts_for(eng, f, env, node):
    """Engine hook: a thunk applying the contract of f, or None to inline it."""
    if f.cls is None or getattr(f.cls, 'name', None) not in ('SortedList', 'SortedKeyList'):
        return None
    a = f.node.args.args if hasattr(f.node, 'args') else []
    if not a:
        return None
    me = env.get(a[0].arg)
    if not isinstance(me, ObjRef):
        return None
    ob = eng.heap[me.id]
    if not eng.is_sl(ob):
        return None
    name = f.name
    if name == 'comparer':
        name = eng.getattr(f, '__name__').parts
        name = ''.join(name) if all(isinstance(x, str) for x in name) else ''
    if ob.cls.lookup(name) is None or unwrap(ob.cls.lookup(name)) is not f:
        return None
    sp = SPEC.get(name) or REPSPEC.get(name)
    if sp is None or name in eng.no_contract:
        return None
    fam = eng.root is not None and eng.root[0] in ('SortedList', 'SortedKeyList')
    if fam and sp.family_inline:
        return None
    if name == '__init__' and ob.meta.get('in_init'):
        return None
    try:
        if isinstance(sp, RepSpec):
            return prepare_rep(eng, sp, me, env, name)
        return prepare(eng, sp, me, env, name)
    except NoContract:
        return None


def unwrap(m):
    if isinstance(m, (E.PropV, E.CMethV, E.SMethV)):
        return m.f
    return m


def note_use(eng, ob, name, env=None):
    eng.uses.add((ob.cls.name, name))
    if eng.root is not None and eng.root == (ob.cls.name, name) and env is not None:
        sh = shape(env)
        if sh == eng.root_shape or eng.root_shape is None:
            raise Unsupported(f'recursive call of {name} without a decreasing measure')


def shape(env):
    out = []
    for k in sorted(env):
        v = env[k]
        if isinstance(v, ObjRef):
            continue
        if isinstance(v, SliceV):
            st = v.st
            if isinstance(st, E.NoneT) or z3.simplify(st.t).eq(IntVal(1)):
                out.append((k, 'slice+1'))
            elif z3.simplify(st.t).eq(IntVal(-1)):
                out.append((k, 'slice-1'))
            else:
                out.append((k, 'slice?'))
        else:
            out.append((k, type(v).__name__))
    return tuple(out)


def choose(eng, guards, cases, name):
    """Pick the contract case (a decision, unless one provably applies)."""
    for g, c in zip(guards, cases):
        if z3.is_true(z3.simplify(g)):
            return c
        if eng.quick_unsat(Not(g)):
            return c
        if eng.quick_unsat(g):
            eng.assume(Not(g))
            continue
        if eng.proved(g, f'case of {name}'):
            eng.assume(g)
            return c
        if eng.branch(g):
            return c
    raise Unsupported(f'call of {name} outside its contract')


def prepare(eng, sp, me, env, name):
    ob = eng.heap[me.id]
    fresh_obj = name == '__init__'
    if ob.meta.get('foreign') and name in ('update', 'clear', 'add') and eng.mode == 'key':
        if name == 'add' and getattr(env['value'], 'bad', False):
            raise Unsupported('a sorted list with another order')
        added = SV.emp if name == 'clear' else SV.unit(env['value'].t) if name == 'add' else peek_seq(eng, env['iterable'])

        def bulk():
            # in its own order: only what does not depend on the order is said
            note_use(eng, ob, name, env)
            if name == 'clear':
                ob.F = SV.emp
                return NONE
            for v in env.values():
                consume_arg(eng, v)
            old, ob.F = ob.F, eng.fresh('foreign', L.SVs)
            eng.assume(SV.len(ob.F) == SV.len(old) + SV.LEN(added))
            eng.assume(L.setof(ob.F) == L.sunion(L.setof(old), L.setof(added)))
            return NONE
        return bulk
    if not fresh_obj:
        # raise NoContract before touching anything
        cx = Cx(eng, me, env, name)
        sp.cases(cx)

    def thunk():
        note_use(eng, ob, name, env)
        if fresh_obj:
            if ob.attrs:
                raise Unsupported('__init__ on an initialised list')
            ob.folded = True
            ob.F = SV.emp
            ob.fold_load = default_load(eng, ob)
            if eng.is_keyed(ob):
                k = env.get('key')
                ob.meta['key'] = k
                if not isinstance(k, (KeyFuncV, E.FuncV)):
                    raise Unsupported(f'key function {k!r}')
                foreign = isinstance(k, E.FuncV)
            else:
                foreign = eng.mode == 'key'
            if foreign:
                # ordered by something else than the order of this proof: nothing is known of its content
                for v in env.values():
                    consume_arg(eng, v)
                ob.F = eng.fresh('foreign', L.SVs)
                ob.meta['foreign'] = True
                return NONE
            if eng.is_keyed(ob):
                pass
            elif not isinstance(env.get('key'), E.NoneT):
                raise PyExc('AssertionError')
        elif sp.mutates or not (ob.folded or eng.is_clean(ob)):
            eng.fold_obj(me, f'before {name}')
        if any(getattr(v, 'bad', False) == 'maybe' for v in env.values()) and eng.decide(2) == 0:
            # a comparison inside fails: the contract promises no change
            if not ob.folded:
                havoc_index(eng, ob)
            eng.blown = 'maybe'
            raise PyExc('TypeError')
        cx = Cx(eng, me, env, name)
        cases = sp.cases(cx)
        c = choose(eng, [c.guard for c in cases], cases, name)
        for v in env.values():
            consume_arg(eng, v)
        if not ob.folded:
            havoc_index(eng, ob)
        if c.raises:
            raise PyExc(c.raises)
        if c.F is not None:
            ob.F = c.F
            eng.assume(L.sortedV(c.F))
        if c.load is not None:
            ob.fold_load = c.load
        return c.ret.make(cx)
    return thunk


def default_load(eng, ob):
    v = ob.cls.lookup('DEFAULT_LOAD_FACTOR')
    if not isinstance(v, IntV):
        raise Unsupported('DEFAULT_LOAD_FACTOR')
    return v.t


def havoc_index(eng, ob, built=False):
    """A call that may (re)build the positional index and nothing else."""
    ref = ob.attrs['_index']
    if eng.in_map:
        oid = [k for k, o in eng.heap.items() if o is ob][0]
        eng.map_effects.append((oid, ref.id, None))
    ix = eng.fresh('IX', L.SIs)
    eng.set_seq(ref, ix, 'I')
    ob.attrs['_offset'] = IntV(eng.fresh_int('off'))
    r0 = ob.meta.get('rep')
    r = Rep(eng, ob)
    if built:
        eng.assume(L.treeok(r.IX, r.off, r.LL))
        eng.assume(SI.len(r.IX) >= 1)
    else:
        eng.assume(r.index_fact())
    if r0 is not None:
        r0.IX, r0.off = r.IX, r.off


def prepare_rep(eng, sp, me, env, name):
    ob = eng.heap[me.id]
    cx0 = Cx(eng, me, env)
    sp.args(cx0)

    def thunk():
        note_use(eng, ob, name, env)
        if ob.folded:
            eng.unfold(me, name)
        if not eng.is_clean(ob):
            # representation must hold at the call; keep the same field terms
            eng.wf_obligations(ob, f'before {name}')
            ob.meta['rep'] = Rep(eng, ob)
            ob.meta['clean'] = ob.meta['rep'].LL
            ob.F = ob.meta['rep'].F()
            eng.assume(L.sortedV(ob.F))
            for f in ob.meta['rep'].derived():
                eng.assume(f)
        cx = Cx(eng, me, env)
        r = Rep(eng, ob)
        for nm, f in sp.pre(cx, r):
            eng.oblige(f'precondition of {name}: {nm}', f, ('pre',))
        cases = sp.cases(cx, r)
        outcome, guard, ret = choose(eng, [c[1] for c in cases], cases, name)
        if sp.mutates:
            F2 = sp.newF(cx, r)
            eng.fold_obj(me, f'before {name}')
            ob.F = F2
            eng.assume(L.sortedV(F2))
            return sp.make(cx)
        havoc_index(eng, ob, built=getattr(sp, 'index_built', False))
        if outcome != 'ok':
            raise PyExc(outcome)
        if isinstance(ret, Ret):
            return ret.make(cx)
        v = sp.make(cx)
        eng.assume(ret(v))
        return v
    return thunk
