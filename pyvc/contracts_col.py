"""Contracts of SortedSet, SortedDict and the dict views.

The object invariant is: the fields are those the constructor creates, with
every cached bound method bound to the current inner set / sorted list; the
inner sorted list holds each member of the set (each key of the dict) exactly
once.  A method's contract is a list of cases over the member set S, the map D
and the sorted sequence F before the call.
"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV
import engine as E
from engine import (IntV, KeyV, BoolV, ElemV, NONE, NOTIMPL, TupleV, ListRef, SetRef, DictRef, ObjRef, IterRef, PairsV,
                    SliceV, KeyFuncV, OpaqueV, PyExc, Unsupported, BoundV)
import contracts_sl as C
from contracts_sl import Ret, RNone, RAny, RNotImpl, RInt, RBool, RElem, RSelf, RSeq, T, slice_terms, peek_seq
from builtins_model import NONE_V

MODULE = {'SortedSet': 'sortedset', 'SortedDict': 'sorteddict', 'SortedKeysView': 'sorteddict', 'SortedItemsView': 'sorteddict',
          'SortedValuesView': 'sorteddict', 'SortedList': 'sortedlist', 'SortedKeyList': 'sortedlist'}


class Case:
    def __init__(self, guard, ret=None, S=None, D=None, raises=None):
        self.guard, self.ret, self.S, self.D, self.raises = guard, ret or RNone(), S, D, raises


# ------------------------------------------------------------- structure
def describe(eng, v):
    if isinstance(v, SetRef):
        return ('obj', v.id, 'set')
    if isinstance(v, ObjRef):
        return ('obj', v.id, eng.heap[v.id].cls.name)
    if isinstance(v, BoundV):
        d = describe(eng, v.self_)
        if d is None:
            return None
        f = v.func
        return ('bound', d, id(f) if isinstance(f, E.FuncV) else getattr(f, 'name', None))
    if isinstance(v, E.NoneT):
        return ('none',)
    if isinstance(v, KeyFuncV):
        return ('key',)
    return None


def structure(eng, oid):
    out = {}
    for a, v in eng.heap[oid].attrs.items():
        d = describe(eng, v)
        if d is None:
            raise Unsupported(f'field {a} outside the described representation')
        out[a] = d
    return out


def match(d0, d1, ren):
    """d1 is d0 with objects renamed consistently; ren is extended."""
    if d0[0] != d1[0]:
        return False
    if d0[0] == 'obj':
        if d0[2] != d1[2]:
            return False
        if d0[1] in ren:
            return ren[d0[1]] == d1[1]
        if d1[1] in ren.values():
            return False
        ren[d0[1]] = d1[1]
        return True
    if d0[0] == 'bound':
        return d0[2] == d1[2] and match(d0[1], d1[1], ren)
    return d0 == d1


def compare_structure(eng, base, oid, tags):
    """Obligations: the fields of an object are arranged like `base`."""
    new = structure(eng, oid)
    extra = set(new) - set(base)
    if extra:
        raise Unsupported(f'fields {sorted(extra)} outside the described representation')
    ren = {}
    order = sorted(base, key=lambda a: (base[a][0] == 'bound', a))
    for a in order:
        if a not in new:
            eng.oblige(f'field {a} exists', BoolVal(False), ('inv',) + tags)
        elif not match(base[a], new[a], ren):
            eng.oblige(f'field {a} belongs to the current inner containers', BoolVal(False), ('inv',) + tags)
    return ren


def the_list(eng, oid):
    v = eng.heap[oid].attrs.get('_list')
    if not (isinstance(v, ObjRef) and eng.is_sl(eng.heap[v.id])):
        raise Unsupported('no inner sorted list')
    return v


def list_content(eng, oid, why='afterwards'):
    ref = the_list(eng, oid)
    lo = eng.heap[ref.id]
    if lo.meta.get('foreign'):
        return None
    if not lo.folded:
        eng.fold_obj(ref, why)
    return lo.F


def any_content(eng, oid):
    lo = eng.heap[the_list(eng, oid).id]
    return lo.F if lo.meta.get('foreign') else list_content(eng, oid)


def members(eng, oid):
    """The member set (keys) of a SortedSet / SortedDict."""
    ob = eng.heap[oid]
    if ob.map is not None:
        return L.DOM(ob.map)
    s = ob.attrs.get('_set')
    if not isinstance(s, SetRef):
        raise Unsupported('no inner set')
    return eng.heap[s.id].s


def invariant(eng, oid, keyed, tags=(), why='afterwards'):
    """Prove the invariant of a collection object."""
    F = list_content(eng, oid, why)
    lo = eng.heap[the_list(eng, oid).id]
    if F is None or eng.is_keyed(lo) != keyed:
        eng.oblige(f'{why}: the inner list is ordered by the same key', BoolVal(False), ('inv', 'order') + tuple(tags))
        return None
    S = members(eng, oid)
    eng.oblige(f'{why}: the sorted list holds exactly the members', L.setof(F) == S, ('inv', 'members') + tuple(tags))
    eng.oblige(f'{why}: the sorted list has no duplicates', L.distinct(F), ('inv', 'distinct') + tuple(tags))
    return F


# ------------------------------------------------------------- receivers
def new_collection(eng, clsname, keyed, havoc=True):
    """A collection as its constructor makes it, with arbitrary content."""
    cls = eng.modules[MODULE[clsname]].env[clsname]
    o = eng.new_instance(cls)
    init = cls.lookup('__init__')
    if not isinstance(init, E.FuncV):
        raise Unsupported('no constructor')
    try:
        if clsname == 'SortedDict':
            eng.call(BoundV(o, init), [eng.keyfunc] if keyed else [], {})
        else:
            eng.call(BoundV(o, init), [], {'key': eng.keyfunc} if keyed else {})
    except PyExc as e:
        raise Unsupported(f'the constructor raises {e.name}')
    if not havoc:
        return o
    ob = eng.heap[o.id]
    ref = the_list(eng, o.id)
    lo = eng.heap[ref.id]
    if lo.meta.get('foreign'):
        raise Unsupported('the constructor builds a list with another order')
    if eng.is_keyed(lo) != keyed:
        raise Unsupported('the constructor builds a list with another key')
    list_content(eng, o.id)
    F = eng.fresh('F', L.SVs)
    eng.assume(L.sortedV(F))
    eng.assume(L.distinct(F))
    eng.assume(SV.len(F) >= 0)
    lo.F = F
    lo.fold_load = eng.fresh_int('load')
    eng.assume(lo.fold_load >= 1)
    if ob.map is not None:
        D = eng.fresh('D', L.Map)
        eng.assume(L.DOM(D) == L.setof(F))
        eng.assume(L.CARD(L.DOM(D)) == SV.len(F))
        ob.map = D
    else:
        S = eng.fresh('S', L.Set)
        eng.assume(S == L.setof(F))
        eng.assume(L.CARD(S) == SV.len(F))
        eng.heap[ob.attrs['_set'].id].s = S
    return o


class OCx(C.Cx):
    """One call on a collection."""

    def __init__(self, eng, me, args, keyed):
        self.eng, self.self_, self.args, self.keyed = eng, me, args, keyed
        self.mode = 'key' if keyed else 'plain'
        self.oid = me.id
        ob = eng.heap[me.id]
        if '_mapping' in ob.attrs:
            self.oid = ob.attrs['_mapping'].id
        self.ob = eng.heap[self.oid]
        self.F = list_content(eng, self.oid) if '_list' in self.ob.attrs else SV.emp
        self.S = members(eng, self.oid) if '_list' in self.ob.attrs else L.semp
        self.D = self.ob.map
        self.n = SV.len(self.F)
        self.ids = {}
        self.env = {}
        self.load = None
        self.base = structure(eng, self.oid) if '_list' in self.ob.attrs else None

    def x(self, i=0):
        v = self.args[i]
        return v.t if isinstance(v, ElemV) else NONE_V

    def isbad(self, i=0):
        return getattr(self.args[i], 'bad', False)

    def set_of(self, v):
        eng = self.eng
        if isinstance(v, SetRef):
            return eng.heap[v.id].s
        if isinstance(v, ObjRef):
            ob = eng.heap[v.id]
            if eng.is_sl(ob):
                return L.setof(eng.cur_view(ob))
            return members(eng, v.id)
        return L.setof(peek_seq(eng, v))

    def map_of(self, v):
        eng = self.eng
        if isinstance(v, DictRef):
            return eng.heap[v.id].m
        if isinstance(v, PairsV):
            return L.mpairs(v.ks, v.vs)
        if isinstance(v, ObjRef):
            return eng.heap[v.id].map
        raise Unsupported('mapping argument')

    def seq_cases(self, name, env):
        """Cases of the sorted list's contract, on F."""
        self.env = env
        return C.SPEC[name].cases(self)


# ------------------------------------------------------------- results
def owned_ids(eng, oid):
    """Everything reachable from the fields of a collection."""
    out = set()
    for v in eng.heap[oid].attrs.values():
        if isinstance(v, (SetRef, ObjRef, ListRef, DictRef)):
            out.add(v.id)
    return out


class RColl(Ret):
    """A new, independent container of the receiver's class."""

    def __init__(self, S=None, D=None, keyed=None, cls=None):
        self.S, self.D, self.keyed, self.cls = S, D, keyed, cls

    def check(self, cx, v):
        eng = cx.eng
        keyed = cx.keyed if self.keyed is None else self.keyed
        if not isinstance(v, ObjRef) or v.id == cx.oid:
            return [('returns a new container', BoolVal(False))]
        ob = eng.heap[v.id]
        want = self.cls or cx.ob.cls.name
        if ob.cls.name != want:
            return [(f'returns a {want}', BoolVal(False))]
        taken = owned_ids(eng, cx.oid) if '_list' in eng.heap[cx.oid].attrs else set()
        for a in cx.args:
            if isinstance(a, (SetRef, ListRef, DictRef)):
                taken.add(a.id)
            elif isinstance(a, ObjRef):
                taken |= owned_ids(eng, a.id) | {a.id}
        if owned_ids(eng, v.id) & taken:
            return [('the result is independent of the operands', BoolVal(False))]
        if self.S is not None and keyed == cx.keyed and cx.base is not None and want == cx.ob.cls.name:
            base = cx.base
        else:
            base = structure(eng, new_collection(eng, want, keyed, havoc=False).id)
        compare_structure(eng, base, v.id, ('ret',))
        F = invariant(eng, v.id, keyed, ('ret',), 'result')
        if F is None:
            return []
        if self.D is not None:
            return [('content of the result', ob.map == self.D)]
        return [('content of the result', members(eng, v.id) == self.S)]


class RRebuild(RColl):
    """(callable, arguments) that builds an equal, independent container."""

    def check(self, cx, v):
        eng = cx.eng
        if not (isinstance(v, TupleV) and len(v.items) == 2 and isinstance(v.items[1], TupleV)):
            return [('returns (callable, arguments)', BoolVal(False))]
        try:
            o = eng.call(v.items[0], v.items[1].items, {})
        except PyExc as e:
            return [(f'rebuilding raises {e.name}', BoolVal(False))]
        return RColl.check(self, cx, o)


class RValue(RElem):
    pass


class RPair(Ret):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def check(self, cx, r):
        if not (isinstance(r, TupleV) and len(r.items) == 2):
            return [('returns a pair', BoolVal(False))]
        return RElem(self.k).check(cx, r.items[0]) + RElem(self.v).check(cx, r.items[1])


class RPairs(Ret):
    """A list of (key, value) tuples: for the keys of a sequence."""

    def __init__(self, K, D):
        self.K, self.D = K, D

    def check(self, cx, r):
        if isinstance(r, ListRef) and cx.eng.lst(r)[0] is None:
            return [('number of items', SV.len(self.K) == 0)]
        if not isinstance(r, PairsV) or getattr(r, 'pykind', 'list') != 'list':
            return [('returns a list of pairs', BoolVal(False))]
        i = z3.Int('pi')
        return [('keys', r.ks == self.K), ('number of values', SV.len(r.vs) == SV.len(self.K)),
                ('values', ForAll([i], Implies(And(0 <= i, i < SV.len(self.K)), SV.at(r.vs, i) == L.val(self.D, SV.at(self.K, i)))))]


class RPairIter(RPairs):
    def check(self, cx, r):
        eng = cx.eng
        if not isinstance(r, IterRef):
            return [('returns an iterator', BoolVal(False))]
        io = eng.heap[r.id]
        if io.elems is None and io.src is not None:
            io = io.src
            parts = getattr(io, 'parts', None)
        else:
            parts = io.elems
        if not parts or [e for e, _ in parts] != ['V', 'V']:
            raise Unsupported('iterator of pairs')
        return RPairs.check(self, cx, PairsV(parts[0][1], parts[1][1]))


class RView(Ret):
    def __init__(self, cls):
        self.cls = cls

    def check(self, cx, v):
        eng = cx.eng
        ok = isinstance(v, ObjRef) and eng.heap[v.id].cls.name == self.cls
        if ok:
            m = eng.heap[v.id].attrs.get('_mapping')
            ok = isinstance(m, ObjRef) and m.id == cx.oid
        return [(f'returns a {self.cls} of this dict', BoolVal(bool(ok)))]


class RKeyF(Ret):
    def check(self, cx, v):
        return [('key function', BoolVal(isinstance(v, KeyFuncV) if cx.keyed else isinstance(v, E.NoneT)))]


# ------------------------------------------------------------- contracts
SPEC = {}


def spec(cls, *names):
    def deco(fn):
        for n in names:
            SPEC[cls, n] = fn
        return fn
    return deco


def unhashable(fn):
    def g(cx):
        if cx.isbad() == 'hash':
            return [Case(T, raises='TypeError')]
        return fn(cx)
    return g


SS, SD = 'SortedSet', 'SortedDict'


@spec(SS, '__init__')
def _(cx):
    return [Case(T, S=cx.set_of(cx.args[0]) if cx.args and not isinstance(cx.args[0], E.NoneT) else L.semp)]


@spec(SS, 'key')
@spec(SD, 'key')
def _(cx):
    return [Case(T, RKeyF())]


@spec(SS, '__contains__')
@spec(SD, '__contains__')
@unhashable
def _(cx):
    return [Case(T, RBool(L.mem(cx.S, cx.x())))]


def conv(cases, S=None, ret=None):
    return [Case(c.guard, ret(c.ret) if ret and c.ret is not None and not c.raises else c.ret, S=S(c) if S and not c.raises else None, raises=c.raises) for c in cases]


@spec(SS, '__getitem__')
@spec('SortedKeysView', '__getitem__')
def _(cx):
    return conv(cx.seq_cases('__getitem__', {'index': cx.args[0]}))


def picked(cx, ix):
    """[(guard, sequence of the elements a subscript selects, raises)]"""
    F, n = cx.F, cx.n
    if isinstance(ix, SliceV):
        a, b, k, st = slice_terms(cx, ix)
        if k == 0:
            return [(T, None, 'ValueError')]
        if k == 1:
            return [(a < b, SV.sl(F, a, b), None), (T, SV.emp, None)]
        if k == -1:
            return [(a > b, SV.rev(SV.sl(F, b + 1, a + 1)), None), (T, SV.emp, None)]
        m = L.rlen(a, b, st)
        cx.eng.assume(m >= 0)
        return [(T, L.selseq(F, a, m, st), None)]
    i = ix.t
    j = If(i < 0, i + n, i)
    return [(And(i >= -n, i < n), SV.unit(SV.at(F, j)), None), (T, None, 'IndexError')]


@spec(SS, '__delitem__')
def _(cx):
    return [Case(g, RAny(), S=None if r else L.sdiff(cx.S, L.setof(q)), raises=r) for g, q, r in picked(cx, cx.args[0])]


def del_view(cx):
    return [Case(g, RAny(), D=None if r else L.mminus(cx.D, L.setof(q)), raises=r) for g, q, r in picked(cx, cx.args[0])]


for _v in ('SortedKeysView', 'SortedItemsView', 'SortedValuesView'):
    SPEC[_v, '__delitem__'] = del_view
    SPEC[_v, '__len__'] = lambda cx: [Case(T, RInt(cx.n))]


def set_cmp(op):
    def f(cx):
        o = cx.args[0]
        if isinstance(o, OpaqueV) or isinstance(o, ListRef):
            return [Case(T, RNotImpl())]
        A, B = cx.S, cx.set_of(o)
        le, ge = L.subset(A, B), L.subset(B, A)
        t = {'eq': And(le, ge), 'ne': Not(And(le, ge)), 'le': le, 'ge': ge, 'lt': And(le, Not(ge)), 'gt': And(ge, Not(le))}[op]
        return [Case(T, RBool(t))]
    return f


for _o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    SPEC[SS, f'__{_o}__'] = set_cmp(_o)

SPEC[SS, '__len__'] = SPEC[SD, '__len__'] = lambda cx: [Case(T, RInt(cx.n))]
SPEC[SS, '__iter__'] = SPEC[SD, '__iter__'] = SPEC['SortedKeysView', '__iter__'] = lambda cx: [Case(T, RSeq('iter', cx.F))]
SPEC[SS, '__reversed__'] = SPEC[SD, '__reversed__'] = lambda cx: [Case(T, RSeq('iter', SV.rev(cx.F)))]


@spec(SS, 'add')
@unhashable
def _(cx):
    v = cx.x()
    inn = L.mem(cx.S, v)
    if cx.isbad() == 'cmp':
        return [Case(inn, RAny()), Case(cx.n > 0, raises='TypeError'), Case(T, RAny(), S=L.sadd(cx.S, v))]
    return [Case(T, RNone(), S=L.sadd(cx.S, v))]


@spec(SS, 'clear')
def _(cx):
    return [Case(T, S=L.semp)]


@spec(SS, 'copy', '__copy__')
def _(cx):
    return [Case(T, RColl(S=cx.S))]


@spec(SS, '__reduce__')
def _(cx):
    return [Case(T, RRebuild(S=cx.S))]


@spec(SS, 'count')
@unhashable
def _(cx):
    return [Case(T, RInt(If(L.mem(cx.S, cx.x()), 1, 0)))]


@spec(SS, 'discard')
@unhashable
def _(cx):
    return [Case(T, S=L.sdel(cx.S, cx.x()))]


@spec(SS, 'remove')
@unhashable
def _(cx):
    return [Case(L.mem(cx.S, cx.x()), S=L.sdel(cx.S, cx.x())), Case(T, raises='KeyError')]


@spec(SS, 'pop')
def _(cx):
    ix = cx.args[0] if cx.args else IntV(-1)
    j = If(ix.t < 0, ix.t + cx.n, ix.t)
    return [Case(And(ix.t >= -cx.n, ix.t < cx.n), RElem(SV.at(cx.F, j)), S=L.sdel(cx.S, SV.at(cx.F, j))), Case(T, raises='IndexError')]


def algebra(kind):
    f = {'union': L.sunion, 'intersection': L.sinter, 'difference': L.sdiff, 'symmetric_difference': L.ssym}[kind]

    def val(cx):
        S = cx.S
        for a in cx.args:
            if isinstance(a, E.StarArg):
                v = a.v
                S = {'union': lambda: L.sunion(S, L.setof(v.seqall)), 'difference': lambda: L.sdiff(S, L.setof(v.seqall)),
                     'intersection': lambda: L.sinter(S, v.inter)}[kind]()
            else:
                S = f(S, cx.set_of(a))
        return S

    def new(cx):
        return [Case(T, RColl(S=val(cx)))]

    def inplace(cx):
        return [Case(T, RSelf(), S=val(cx))]
    return new, inplace


for _k, _op, _rop, _iop, _upd in (('union', '__or__', '__ror__', '__ior__', 'update'), ('intersection', '__and__', '__rand__', '__iand__', 'intersection_update'),
                                  ('difference', '__sub__', None, '__isub__', 'difference_update'),
                                  ('symmetric_difference', '__xor__', '__rxor__', '__ixor__', 'symmetric_difference_update')):
    _n, _i = algebra(_k)
    for _m in (_k, _op, _rop):
        if _m:
            SPEC[SS, _m] = _n
    for _m in (_upd, _iop):
        SPEC[SS, _m] = _i

SPEC[SS, 'issubset'] = lambda cx: [Case(T, RBool(L.subset(cx.S, cx.set_of(cx.args[0]))))]
SPEC[SS, 'issuperset'] = lambda cx: [Case(T, RBool(L.subset(cx.set_of(cx.args[0]), cx.S)))]
SPEC[SS, 'isdisjoint'] = lambda cx: [Case(T, RBool(L.subset(L.sinter(cx.S, cx.set_of(cx.args[0])), L.semp)))]


def delegated(name):
    params = {'bisect': ('value',), 'bisect_left': ('value',), 'bisect_right': ('value',), 'bisect_key': ('key',), 'bisect_key_left': ('key',),
              'bisect_key_right': ('key',), 'index': ('value', 'start', 'stop'), 'islice': ('start', 'stop', 'reverse'),
              'irange': ('minimum', 'maximum', 'inclusive', 'reverse'), 'irange_key': ('min_key', 'max_key', 'inclusive', 'reverse'), '_reset': ('load',)}[name]

    def f(cx):
        env = dict(zip(params, cx.args))
        for p in params:
            env.setdefault(p, NONE)
        return conv(cx.seq_cases(name, env))
    return f


DELEGATED = ('bisect', 'bisect_left', 'bisect_right', 'index', 'islice', 'irange', '_reset')
DELEGATED_KEY = ('bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key')
for _m in DELEGATED + DELEGATED_KEY:
    SPEC[SS, _m] = SPEC[SD, _m] = delegated(_m)


SPEC[SS, '_check'] = SPEC[SD, '_check'] = lambda cx: [Case(cx.eng.heap[the_list(cx.eng, cx.oid).id].fold_load >= 4), Case(T, raises='AssertionError')]


# ---- SortedDict
def given_map(cx, args):
    """Map described by dict-style arguments."""
    m = L.memp
    for a in args:
        if isinstance(a, E.KwArgs):
            m = a.m if m.eq(L.memp) else L.mmerge(m, a.m)
        elif not isinstance(a, (E.NoneT, KeyFuncV)):
            m = cx.map_of(a)
    return m


@spec(SD, '__init__')
def _(cx):
    return [Case(T, D=given_map(cx, cx.args))]


@spec(SD, 'clear')
def _(cx):
    return [Case(T, D=L.memp)]


@spec(SD, '__getitem__')
@unhashable
def _(cx):
    return [Case(L.mem(cx.S, cx.x()), RElem(L.val(cx.D, cx.x()))), Case(T, raises='KeyError')]


@spec(SD, '__delitem__')
@unhashable
def _(cx):
    return [Case(L.mem(cx.S, cx.x()), RAny(), D=L.mdel(cx.D, cx.x())), Case(T, raises='KeyError')]


@spec(SD, '__setitem__')
@unhashable
def _(cx):
    k, v = cx.x(0), cx.x(1)
    new = L.mput(cx.D, k, v)
    if cx.isbad() == 'cmp':
        return [Case(L.mem(cx.S, k), RAny(), D=new), Case(cx.n > 0, raises='TypeError'), Case(T, RAny(), D=new)]
    return [Case(T, RAny(), D=new)]


@spec(SD, 'setdefault')
@unhashable
def _(cx):
    k = cx.x(0)
    v = cx.x(1) if len(cx.args) > 1 else NONE_V
    new = L.mput(cx.D, k, v)
    inn = Case(L.mem(cx.S, k), RElem(L.val(cx.D, k)), D=cx.D)
    if cx.isbad() == 'cmp':
        return [inn, Case(cx.n > 0, raises='TypeError'), Case(T, RElem(v), D=new)]
    return [inn, Case(T, RElem(v), D=new)]


@spec(SD, 'get')
@unhashable
def _(cx):
    return [Case(L.mem(cx.S, cx.x()), RElem(L.val(cx.D, cx.x()))), Case(T, RElem(cx.x(1) if len(cx.args) > 1 else NONE_V))]


@spec(SD, 'pop')
@unhashable
def _(cx):
    k = cx.x(0)
    hit = Case(L.mem(cx.S, k), RElem(L.val(cx.D, k)), D=L.mdel(cx.D, k))
    if len(cx.args) > 1:
        return [hit, Case(T, RElem(cx.x(1)), D=cx.D)]
    return [hit, Case(T, raises='KeyError')]


@spec(SD, 'popitem')
def _(cx):
    i = cx.args[0].t if cx.args else IntVal(-1)
    n = cx.n
    j = z3.simplify(If(i < 0, i + n, i))
    k = SV.at(cx.F, j)
    return [Case(n == 0, raises='KeyError'), Case(And(i >= -n, i < n), RPair(k, L.val(cx.D, k)), D=L.mdel(cx.D, k)), Case(T, raises='IndexError')]


@spec(SD, 'peekitem')
def _(cx):
    i = cx.args[0].t if cx.args else IntVal(-1)
    n = cx.n
    k = SV.at(cx.F, z3.simplify(If(i < 0, i + n, i)))
    return [Case(And(i >= -n, i < n), RPair(k, L.val(cx.D, k))), Case(T, raises='IndexError')]


@spec(SD, 'update')
def _(cx):
    return [Case(T, D=L.mmerge(cx.D, given_map(cx, cx.args)))]


@spec(SD, '__ior__')
def _(cx):
    return [Case(T, RSelf(), D=L.mmerge(cx.D, given_map(cx, cx.args)))]


@spec(SD, '__or__')
def _(cx):
    if isinstance(cx.args[0], (OpaqueV, ListRef)):
        return [Case(T, RNotImpl())]
    return [Case(T, RColl(D=L.mmerge(cx.D, cx.map_of(cx.args[0]))))]


@spec(SD, '__ror__')
def _(cx):
    if isinstance(cx.args[0], (OpaqueV, ListRef)):
        return [Case(T, RNotImpl())]
    return [Case(T, RColl(D=L.mmerge(cx.map_of(cx.args[0]), cx.D)))]


@spec(SD, 'copy', '__copy__')
def _(cx):
    return [Case(T, RColl(D=cx.D))]


@spec(SD, '__reduce__')
def _(cx):
    return [Case(T, RRebuild(D=cx.D))]


@spec(SD, 'fromkeys')
def _(cx):
    q = peek_seq(cx.eng, cx.args[0])
    v = cx.x(1) if len(cx.args) > 1 else NONE_V
    return [Case(T, RColl(D=L.mpairs(q, L.konst(v, SV.LEN(q))), keyed=False))]


SPEC[SD, 'keys'] = lambda cx: [Case(T, RView('SortedKeysView'))]
SPEC[SD, 'items'] = lambda cx: [Case(T, RView('SortedItemsView'))]
SPEC[SD, 'values'] = lambda cx: [Case(T, RView('SortedValuesView'))]


@spec('SortedValuesView', '__getitem__')
def _(cx):
    ix = cx.args[0]
    out = []
    for g, q, r in picked(cx, ix):
        if r:
            out.append(Case(g, raises=r))
        elif isinstance(ix, SliceV):
            out.append(Case(g, RSeq('list', None, pointwise=(SV.LEN(q), lambda i, q=q: L.val(cx.D, SV.at(q, i))))))
        else:
            out.append(Case(g, RElem(L.val(cx.D, q.arg(0)))))
    return out


@spec('SortedItemsView', '__getitem__')
def _(cx):
    ix = cx.args[0]
    out = []
    for g, q, r in picked(cx, ix):
        if r:
            out.append(Case(g, raises=r))
        elif isinstance(ix, SliceV):
            out.append(Case(g, RPairs(q, cx.D)))
        else:
            out.append(Case(g, RPair(q.arg(0), L.val(cx.D, q.arg(0)))))
    return out


SPEC['SortedKeysView', '__contains__'] = unhashable(lambda cx: [Case(T, RBool(L.mem(cx.S, cx.x())))])
SPEC['SortedValuesView', '__iter__'] = lambda cx: [Case(T, RSeq('iter', L.mvals(cx.D, cx.F)))]
SPEC['SortedItemsView', '__iter__'] = lambda cx: [Case(T, RPairIter(cx.F, cx.D))]
# the sequence and collection methods the views inherit from the standard
# library's abstract base classes; proved only where the code defines them itself


def row(cx, values):
    return L.mvals(cx.D, cx.F) if values else cx.F


def first_at(cx, values):
    q = row(cx, values)
    r = L.firstf(q, cx.x(), IntVal(0))
    return [Case(r < SV.len(q), RInt(r)), Case(T, raises='ValueError')]


for _v, _b in (('SortedKeysView', False), ('SortedValuesView', True)):
    SPEC[_v, 'index'] = lambda cx, b=_b: first_at(cx, b)
    SPEC[_v, 'count'] = lambda cx, b=_b: [Case(T, RInt(L.cnt(row(cx, b), cx.x(), cx.n)))]
    SPEC[_v, '__reversed__'] = lambda cx, b=_b: [Case(T, RSeq('iter', SV.rev(row(cx, b))))]
SPEC['SortedValuesView', '__contains__'] = lambda cx: [Case(T, RBool(L.firstf(row(cx, True), cx.x(), IntVal(0)) < cx.n))]


def pair_arg(cx):
    k, v = cx.args[0].items
    return k.t, v.t, And(L.mem(cx.S, k.t), L.eqc(L.val(cx.D, k.t)) == L.eqc(v.t))


@spec('SortedItemsView', 'index')
def _(cx):
    k, v, there = pair_arg(cx)
    return [Case(there, RInt(L.firstf(cx.F, k, IntVal(0)))), Case(T, raises='ValueError')]


SPEC['SortedItemsView', 'count'] = lambda cx: [Case(T, RInt(If(pair_arg(cx)[2], 1, 0)))]
SPEC['SortedItemsView', '__contains__'] = lambda cx: [Case(T, RBool(pair_arg(cx)[2]))]
SPEC['SortedItemsView', '__reversed__'] = lambda cx: [Case(T, RPairIter(SV.rev(cx.F), cx.D))]


# ------------------------------------------------------------- the run
MUTATES = {SS: {'__init__', '__delitem__', 'add', 'clear', 'discard', 'remove', 'pop', 'update', '__ior__', 'intersection_update', '__iand__', 'difference_update',
                '__isub__', 'symmetric_difference_update', '__ixor__'},
           SD: {'__init__', 'clear', '__delitem__', '__setitem__', 'setdefault', 'pop', 'popitem', 'update', '__ior__'}}
for _v in ('SortedKeysView', 'SortedItemsView', 'SortedValuesView'):
    MUTATES[_v] = {'__delitem__'}


def run_col(eng, sc):
    from verify import setup
    keyed = sc.keyed
    eng.mode = 'key' if keyed else 'plain'
    if not keyed:
        eng.assume(L.EQ_ORD_PLAIN)
        eng.assume(L.isplain)
    else:
        eng.assume(L.EQ_ORD_KEY)
    eng.assume(L.EQ_IDENT)
    eng.keyfunc = KeyFuncV()
    eng.root = (sc.cls, sc.method)
    eng.root_shape = None
    clsname = sc.cls if sc.cls in (SS, SD) else SD
    cls = eng.modules[MODULE[sc.cls]].env[sc.cls]
    init = sc.method == '__init__'
    blank = None
    if init:
        blank = structure(eng, new_collection(eng, clsname, keyed, havoc=False).id)
        me = eng.new_instance(cls)
    else:
        me = new_collection(eng, clsname, keyed)
        if sc.cls != clsname:
            me = eng.construct(cls, [me], {}, None)
    args = sc.build(eng, me)
    kw = {}
    if args and isinstance(args[-1], dict):
        kw = args[-1]
        args = args[:-1]
    cx = OCx(eng, me, args + [v for v in kw.values() if isinstance(v, E.KwArgs)], keyed)
    if not init:
        base = cx.base
    F0, S0, D0 = cx.F, cx.S, cx.D
    before = []
    for a in args:
        if isinstance(a, ListRef):
            before.append(('list', a.id, eng.heap[a.id].seq))
        elif isinstance(a, SetRef):
            before.append(('set', a.id, eng.heap[a.id].s))
        elif isinstance(a, DictRef):
            before.append(('dict', a.id, eng.heap[a.id].m))
        elif isinstance(a, ObjRef) and a.id != me.id and '_list' in eng.heap[a.id].attrs:
            before.append(('col', a.id, (any_content(eng, a.id), members(eng, a.id), eng.heap[a.id].map)))
    cases = SPEC[sc.cls, sc.method](cx)
    exc = ret = None
    try:
        ret = invoke(eng, sc, cls, me, list(args), kw)
    except PyExc as e:
        exc = e
    eng.post_tag = ()
    if eng.blown == 'maybe':
        if exc is None or exc.name != 'TypeError':
            eng.oblige(f'a failed comparison is reported, but {"raises " + exc.name if exc else "returns"}', BoolVal(False), ('raise', 'missing'))
            raise E.PathEnd()
        cases = [Case(T, raises='TypeError')]
    elif any(getattr(v, 'bad', False) == 'maybe' for v in args):
        raise E.PathEnd()
    for c in cases:
        if z3.is_true(c.guard) or eng.branch(c.guard):
            break
    else:
        raise E.PathEnd()
    outcome = c.raises or 'ok'
    eng.reached(outcome)
    got = exc.name if exc is not None else 'ok'
    if not (got == outcome or (exc is not None and outcome != 'ok' and E.exc_isa(got, outcome))):
        eng.oblige(f'must {"raise " + outcome if outcome != "ok" else "not raise"}, but {"raises " + got if exc else "returns"}',
                   BoolVal(False), ('raise', 'missing' if exc is None else 'unexpected'))
        raise E.PathEnd()
    if init and exc is not None:
        return
    rejected = outcome != 'ok'
    tags = eng.post_tag = ('unchanged',) if rejected else ()
    oid = cx.oid
    compare_structure(eng, blank if init else base, oid, ())
    if rejected or sc.method not in MUTATES[sc.cls]:
        # exactly the same content as before
        F = list_content(eng, oid)
        S = members(eng, oid)
        if F is None or not F.eq(F0):
            eng.oblige('the sorted sequence is unchanged', F == F0 if F is not None else BoolVal(False), ('content', 'frame'))
        if not S.eq(S0):
            eng.oblige('the members are unchanged', S == S0, ('content', 'frame'))
        if D0 is not None and not cx.ob.map.eq(D0):
            eng.oblige('the mapping is unchanged', cx.ob.map == D0, ('content', 'frame'))
    else:
        ob = eng.heap[oid]
        if c.D is not None and not ob.map.eq(c.D):
            eng.oblige('content', ob.map == c.D, ('content',))
        if c.S is not None and not members(eng, oid).eq(c.S):
            eng.oblige('content', members(eng, oid) == c.S, ('content',))
        invariant(eng, oid, keyed)
    for kind, i, v in before:
        o = eng.heap[i]
        if kind == 'list' and not o.seq.eq(v):
            eng.oblige('argument list is not changed', o.seq == v, ('frame', 'args'))
        elif kind == 'set' and not o.s.eq(v):
            eng.oblige('argument set is not changed', o.s == v, ('frame', 'args'))
        elif kind == 'dict' and not o.m.eq(v):
            eng.oblige('argument dict is not changed', o.m == v, ('frame', 'args'))
        elif kind == 'col':
            F = any_content(eng, i)
            if F is None or not F.eq(v[0]):
                eng.oblige('operand is not changed', F == v[0] if F is not None else BoolVal(False), ('frame', 'args'))
            if not members(eng, i).eq(v[1]):
                eng.oblige('operand is not changed', members(eng, i) == v[1], ('frame', 'args'))
            if v[2] is not None and not o.map.eq(v[2]):
                eng.oblige('operand is not changed', o.map == v[2], ('frame', 'args'))
    if outcome == 'ok':
        for item in c.ret.check(cx, ret):
            eng.oblige(item[0], item[1], ('ret',))


GENERIC = {'__iter__': 'b_iter', '__len__': 'b_len', '__reversed__': 'b_reversed'}


def invoke(eng, sc, cls, me, args, kw):
    m = sc.method
    if sc.method == 'fromkeys':
        return eng.call(eng.getattr(cls, 'fromkeys'), args, kw)
    std = eng.std_func(cls, m) if cls.lookup(m) is None and (m.startswith('__') or m not in eng.heap[me.id].attrs) else None
    if std is not None:
        # inherited from an abstract base class: the library's own code
        return eng.call(E.BoundV(me, std), args, kw)
    if cls.lookup(m) is None and m in GENERIC:
        # inherited from dict or an abstract base class: what the built-in does
        return getattr(eng, GENERIC[m])([me], {}, None)
    if cls.lookup(m) is None and m == '__contains__':
        return eng.contains(me, args[0], None)
    f = eng.getattr(me, m)
    if isinstance(cls.lookup(m), E.PropV):
        return f
    return eng.call(f, args, kw)


# ------------------------------------------------------------- scenarios
def scenarios():
    from verify import Scenario, elem, int_, keyval, mklist, mkiter, mkset, opt_int, opt_elem, opt_key, bool_
    out = []

    def S(cls, m, nm, build, props, modes=(False, True)):
        for keyed in modes:
            s = Scenario(cls, m, ('keyed, ' if keyed else '') + nm, build, 'col')
            s.keyed = keyed
            s.props = tuple(props)
            out.append(s)

    def unh(e, me=None):
        return elem(e, bad='hash')

    def none(e, me):
        return []

    def subs(cls, m, props):
        S(cls, m, 'int', lambda e, me: [int_(e)], props + ['C16'])
        S(cls, m, 'slice', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), NONE)], props)
        S(cls, m, 'slice step -1', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), IntV(-1))], props)
        S(cls, m, 'slice step 0', lambda e, me: [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), IntV(0))], props + ['C16'])

        def other(e, me):
            st = int_(e, 'step')
            e.assume(And(st.t != 0, st.t != 1, st.t != -1))
            return [SliceV(opt_int(e, 'a'), opt_int(e, 'b'), st)]
        S(cls, m, 'slice other step', other, props)

    def other_set(e, me):
        return new_collection(e, SS, e.mode == 'key')

    def other_dict(e, me):
        return new_collection(e, SD, e.mode == 'key')

    def elsewhere(clsname):
        """A collection ordered by something else than the receiver's key."""
        def f(e, me):
            o = new_collection(e, clsname, False, havoc=False)
            ob = e.heap[o.id]
            lo = e.heap[the_list(e, o.id).id]
            if not lo.meta.get('foreign'):
                raise Unsupported('the constructor builds a list with another order')
            lo.F = F = e.fresh('foreignF', L.SVs)
            e.assume(And(L.distinct(F), SV.len(F) >= 0))
            if ob.map is not None:
                ob.map = D = e.fresh('foreignD', L.Map)
                e.assume(And(L.DOM(D) == L.setof(F), L.CARD(L.DOM(D)) == SV.len(F)))
            else:
                S = e.fresh('foreignS', L.Set)
                e.assume(And(S == L.setof(F), L.CARD(S) == SV.len(F)))
                e.heap[ob.attrs['_set'].id].s = S
            return o
        return f

    def mkdict(e, me=None):
        return DictRef(e.alloc(E.DictObj(e.fresh('argdict', L.Map))))

    def pairs(kind):
        def f(e, me=None):
            ks, vs = e.fresh('ks', L.SVs), e.fresh('vs', L.SVs)
            e.assume(SV.len(ks) == SV.len(vs))
            p = PairsV(ks, vs)
            p.pykind = kind
            if kind == 'Mapping':
                e.assume(L.distinct(ks))
            return p
        return f

    def kwargs(e, me=None):
        m = e.fresh('kw', L.Map)
        e.assume(L.CARD(L.DOM(m)) > 0)
        return E.KwArgs(m)

    iters = {'list': lambda e, me: mklist(e), 'iterator': lambda e, me: mkiter(e), 'set': lambda e, me: mkset(e), 'itself': lambda e, me: me,
             'sorted set': other_set}

    def var(e, me):
        return [E.StarArg(E.VarIters(e.fresh('vu', L.Set), e.fresh('vall', L.SVs), e.fresh('vi', L.Set)))]

    # ---- SortedSet
    for k, f in iters.items():
        if k != 'itself':
            S(SS, '__init__', k, lambda e, me, f=f: [f(e, me)] + [{'key': e.keyfunc}] if e.mode == 'key' else [f(e, me)], ['C13'])
    S(SS, '__init__', 'nothing', lambda e, me: [{'key': e.keyfunc}] if e.mode == 'key' else [], ['C13'])
    S(SS, 'key', '', none, ['C14', 'C15'])
    S(SS, '__contains__', 'value', lambda e, me: [elem(e)], ['C13'])
    S(SS, '__contains__', 'unhashable value', lambda e, me: [unh(e)], ['C16'], (False,))
    subs(SS, '__getitem__', ['C13'])
    subs(SS, '__delitem__', ['C13'])
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        S(SS, f'__{op}__', 'sorted set', lambda e, me: [other_set(e, me)], ['C14'])
        S(SS, f'__{op}__', 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me)], ['C14'], (True,))
        S(SS, f'__{op}__', 'set', lambda e, me: [mkset(e)], ['C14'], (False,))
        S(SS, f'__{op}__', 'itself', lambda e, me: [me], ['C14'], (False,))
        S(SS, f'__{op}__', 'not a set', lambda e, me: [OpaqueV('non-set', {'*': False})], ['C14'], (False,))
        S(SS, f'__{op}__', 'list', lambda e, me: [mklist(e)], ['C14'], (False,))
    S(SS, '__len__', '', none, ['C13'])
    S(SS, '__iter__', '', none, ['C13'])
    S(SS, '__reversed__', '', none, ['C13'])
    S(SS, 'add', 'value', lambda e, me: [elem(e)], ['C13'])
    S(SS, 'add', 'incomparable value', lambda e, me: [elem(e, bad='cmp')], ['C16'])
    S(SS, 'add', 'a comparison fails', lambda e, me: [elem(e, bad='maybe')], ['C16'])
    for m in ('add', 'discard', 'remove', 'count'):
        S(SS, m, 'unhashable value', lambda e, me: [unh(e)], ['C16'], (False,))
    S(SS, 'clear', '', none, ['C13'])
    S(SS, 'copy', '', none, ['C15'])
    S(SS, '__copy__', '', none, ['C15'])
    S(SS, '__reduce__', '', none, ['C15'])
    S(SS, 'count', 'value', lambda e, me: [elem(e)], ['C13'])
    S(SS, 'discard', 'value', lambda e, me: [elem(e)], ['C13'])
    S(SS, 'remove', 'value', lambda e, me: [elem(e)], ['C13', 'C16'])
    S(SS, 'pop', '', none, ['C13', 'C16'])
    S(SS, 'pop', 'index', lambda e, me: [int_(e)], ['C13', 'C16'])
    for k, ops in (('union', ('__or__', '__ror__')), ('intersection', ('__and__', '__rand__')), ('difference', ('__sub__',)),
                   ('symmetric_difference', ('__xor__', '__rxor__'))):
        shapes = list(iters) if k != 'symmetric_difference' else list(iters)
        for a in shapes:
            S(SS, k, a, lambda e, me, f=iters[a]: [f(e, me)], ['C14', 'C15'])
        S(SS, k, 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me)], ['C14', 'C15'], (True,))
        for m in ops:
            for a in ('set', 'sorted set', 'itself'):
                S(SS, m, a, lambda e, me, f=iters[a]: [f(e, me)], ['C14'], (False, True) if a == 'sorted set' else (True,))
        if k != 'symmetric_difference':
            S(SS, k, 'nothing', none, ['C14'])
            S(SS, k, 'any number of iterables', var, ['C14'])
            S(SS, k, 'list, set', lambda e, me: [mklist(e), mkset(e)], ['C14'], (True,))
    for m, iop in (('update', '__ior__'), ('intersection_update', '__iand__'), ('difference_update', '__isub__'), ('symmetric_difference_update', '__ixor__')):
        for a in iters:
            S(SS, m, a, lambda e, me, f=iters[a]: [f(e, me)], ['C13', 'C14'])
        S(SS, m, 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me)], ['C13', 'C14'], (True,))
        S(SS, iop, 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me)], ['C13', 'C14'], (True,))
        for a in ('set', 'sorted set', 'itself'):
            S(SS, iop, a, lambda e, me, f=iters[a]: [f(e, me)], ['C13', 'C14'], (False, True) if a == 'sorted set' else (True,))
        if m != 'symmetric_difference_update':
            S(SS, m, 'nothing', none, ['C13', 'C14'])
            S(SS, m, 'any number of iterables', var, ['C13', 'C14'])
            S(SS, m, 'list, set', lambda e, me: [mklist(e), mkset(e)], ['C13', 'C14'], (True,))
    for m in ('issubset', 'issuperset', 'isdisjoint'):
        for a in iters:
            S(SS, m, a, lambda e, me, f=iters[a]: [f(e, me)], ['C14'], (False, True) if a == 'set' else (False,))
        S(SS, m, 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me)], ['C14'], (True,))
    for cls, p in ((SS, 'C13'), (SD, 'C12')):
        S(cls, 'index', 'value', lambda e, me: [elem(e)], [p, 'C16'])
        S(cls, 'index', 'value, start, stop', lambda e, me: [elem(e), opt_int(e, 'start'), opt_int(e, 'stop')], [p])
        for m in ('bisect', 'bisect_left', 'bisect_right'):
            S(cls, m, 'value', lambda e, me: [elem(e)], [p])
        for m in ('bisect_key', 'bisect_key_left', 'bisect_key_right'):
            S(cls, m, 'key', lambda e, me: [keyval(e)], [p], (True,))
        S(cls, 'islice', 'start, stop, reverse', lambda e, me: [opt_int(e, 'a'), opt_int(e, 'b'), bool_(e, 'rev')], [p])
        S(cls, 'irange', 'minimum, maximum, inclusive, reverse', lambda e, me: [opt_elem(e, 'lo'), opt_elem(e, 'hi'), TupleV([bool_(e, 'i0'), bool_(e, 'i1')]), bool_(e, 'rev')], [p])
        S(cls, 'irange_key', 'min_key, max_key, inclusive, reverse', lambda e, me: [opt_key(e, 'lo'), opt_key(e, 'hi'), TupleV([bool_(e, 'i0'), bool_(e, 'i1')]), bool_(e, 'rev')], [p], (True,))

        def load_arg(e, me):
            i = int_(e, 'load')
            e.assume(i.t >= 1)
            return [i]
        S(cls, '_reset', 'load', load_arg, [p])
        S(cls, '_check', '', none, ['C13' if cls == SS else 'C11'])

    # ---- SortedDict
    def kf(e):
        return [e.keyfunc] if e.mode == 'key' else []

    def kfn(e):
        return [e.keyfunc] if e.mode == 'key' else [NONE]
    S(SS, '__init__', 'sorted set of another order', lambda e, me: [elsewhere(SS)(e, me), {'key': e.keyfunc}], ['C13'], (True,))
    for m in ('__init__', 'update', '__ior__', '__or__', '__ror__'):
        S(SD, m, 'sorted dict of another order', lambda e, me, m=m: (kf(e) if m == '__init__' else []) + [elsewhere(SD)(e, me)],
          ['C15'] if 'or__' in m and m != '__ior__' else ['C11'] + (['C15'] if m == '__init__' else []), (True,))
    maps = {'dict': mkdict, 'pairs': pairs('list'), 'mapping': pairs('Mapping'), 'sorted dict': other_dict}
    S(SD, '__init__', 'nothing', lambda e, me: kf(e), ['C11'])
    for k, f in maps.items():
        S(SD, '__init__', k, lambda e, me, f=f: kf(e) + [f(e, me)], ['C11', 'C15'])
        S(SD, '__init__', 'None, ' + k, lambda e, me, f=f: kfn(e) + [f(e, me)], ['C11'], (False,))
        S(SD, '__init__', k + ', keywords', lambda e, me, f=f: kf(e) + [f(e, me), {'**': kwargs(e)}], ['C11'], (True,) if k != 'dict' else (False, True))
        S(SD, 'update', k, lambda e, me, f=f: [f(e, me)], ['C11'])
        S(SD, 'update', k + ', keywords', lambda e, me, f=f: [f(e, me), {'**': kwargs(e)}], ['C11'], (True,) if k != 'dict' else (False, True))
        S(SD, '__ior__', k, lambda e, me, f=f: [f(e, me)], ['C11'])
        if k != 'pairs':
            S(SD, '__or__', k, lambda e, me, f=f: [f(e, me)], ['C15'])
            S(SD, '__ror__', k, lambda e, me, f=f: [f(e, me)], ['C15'])
    S(SD, '__init__', 'keywords', lambda e, me: kf(e) + [{'**': kwargs(e)}], ['C11'])
    S(SD, 'update', 'nothing', none, ['C11'])
    S(SD, 'update', 'keywords', lambda e, me: [{'**': kwargs(e)}], ['C11'])
    S(SD, 'update', 'itself', lambda e, me: [me], ['C11'])
    S(SD, '__or__', 'not a mapping', lambda e, me: [OpaqueV('non-mapping', {'*': False})], ['C15', 'C16'], (False,))
    S(SD, '__ror__', 'not a mapping', lambda e, me: [OpaqueV('non-mapping', {'*': False})], ['C15', 'C16'], (False,))
    S(SD, '__or__', 'itself', lambda e, me: [me], ['C15'])
    S(SD, 'key', '', none, ['C15'])
    S(SD, 'clear', '', none, ['C11'])
    S(SD, '__getitem__', 'key', lambda e, me: [elem(e)], ['C11', 'C16'], (False,))
    S(SD, '__contains__', 'key', lambda e, me: [elem(e)], ['C11'], (False,))
    S(SD, 'get', 'key', lambda e, me: [elem(e)], ['C11'], (False,))
    S(SD, '__len__', '', none, ['C11'])
    S(SD, '__iter__', '', none, ['C11'])
    S(SD, '__reversed__', '', none, ['C11'])
    S(SD, '__delitem__', 'key', lambda e, me: [elem(e)], ['C11', 'C16'])
    S(SD, '__setitem__', 'key, value', lambda e, me: [elem(e), elem(e, 'x')], ['C11'])
    S(SD, 'setdefault', 'key, value', lambda e, me: [elem(e), elem(e, 'x')], ['C11'])
    S(SD, 'setdefault', 'key', lambda e, me: [elem(e)], ['C11'])
    for m, more in (('__setitem__', 1), ('setdefault', 1)):
        S(SD, m, 'incomparable key', lambda e, me: [elem(e, bad='cmp'), elem(e, 'x')], ['C16'])
        S(SD, m, 'a comparison fails', lambda e, me: [elem(e, bad='maybe'), elem(e, 'x')], ['C16'])
        S(SD, m, 'unhashable key', lambda e, me: [unh(e), elem(e, 'x')], ['C16'], (False,))
    for m in ('__delitem__', 'pop', '__contains__', '__getitem__'):
        S(SD, m, 'unhashable key', lambda e, me: [unh(e)], ['C16'], (False,))
    S(SD, 'pop', 'key', lambda e, me: [elem(e)], ['C11', 'C16'])
    S(SD, 'pop', 'key, default', lambda e, me: [elem(e), elem(e, 'x')], ['C11'])
    S(SD, 'pop', 'key, None', lambda e, me: [elem(e), NONE], ['C11'])
    S(SD, 'popitem', '', none, ['C11', 'C12', 'C16'])
    S(SD, 'popitem', 'index', lambda e, me: [int_(e)], ['C11', 'C12', 'C16'])
    S(SD, 'peekitem', '', none, ['C12', 'C16'])
    S(SD, 'peekitem', 'index', lambda e, me: [int_(e)], ['C12', 'C16'])
    S(SD, 'copy', '', none, ['C15'])
    S(SD, '__copy__', '', none, ['C15'])
    S(SD, '__reduce__', '', none, ['C15'])
    for k in ('list', 'iterator', 'set'):
        S(SD, 'fromkeys', k, lambda e, me, f=iters[k]: [f(e, me)], ['C15'], (False,))
        S(SD, 'fromkeys', k + ', value', lambda e, me, f=iters[k]: [f(e, me), elem(e, 'x')], ['C15'], (False,))
    for m in ('keys', 'items', 'values'):
        S(SD, m, '', none, ['C12'], (False,))
    # ---- views
    for v in ('SortedKeysView', 'SortedItemsView', 'SortedValuesView'):
        subs(v, '__getitem__', ['C12'])
        subs(v, '__delitem__', ['C12'])
        S(v, '__len__', '', none, ['C12'], (False,))
        S(v, '__iter__', '', none, ['C12'], (False,))
    S('SortedKeysView', '__contains__', 'key', lambda e, me: [elem(e)], ['C12'], (False,))
    for v in ('SortedKeysView', 'SortedItemsView', 'SortedValuesView'):
        arg = (lambda e, me: [E.TupleV([elem(e), elem(e, 'x')])]) if v == 'SortedItemsView' else (lambda e, me: [elem(e)])
        for m in ('index', 'count') + (() if v == 'SortedKeysView' else ('__contains__',)):
            S(v, m, 'value', arg, ['C12'], (False,))
        S(v, '__reversed__', '', none, ['C12'], (False,))
    return out
