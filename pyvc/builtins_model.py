"""Contracts (trusted) of the Python built-ins and standard-library functions
that the verified code calls.  These are the only assumed contracts."""
import ast
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI

# abstract base classes: name -> the ABCs it belongs to
ABC = {
    'MutableSequence': {'Sequence', 'Reversible', 'Collection', 'Iterable', 'Sized', 'Container'},
    'Sequence': {'Reversible', 'Collection', 'Iterable', 'Sized', 'Container'},
    'MutableSet': {'Set', 'Collection', 'Iterable', 'Sized', 'Container'},
    'Set': {'Collection', 'Iterable', 'Sized', 'Container'},
    'KeysView': {'Set', 'MappingView', 'Collection', 'Iterable', 'Sized', 'Container'},
    'ItemsView': {'Set', 'MappingView', 'Collection', 'Iterable', 'Sized', 'Container'},
    'ValuesView': {'MappingView', 'Collection', 'Iterable', 'Sized', 'Container'},
    'dict': {'MutableMapping', 'Mapping', 'Collection', 'Iterable', 'Sized', 'Container'},
    'list': {'MutableSequence', 'Sequence', 'Reversible', 'Collection', 'Iterable', 'Sized', 'Container'},
    'tuple': {'Sequence', 'Reversible', 'Collection', 'Iterable', 'Sized', 'Container'},
    'range': {'Sequence', 'Reversible', 'Collection', 'Iterable', 'Sized', 'Container'},
    'set': {'MutableSet', 'Set', 'Collection', 'Iterable', 'Sized', 'Container'},
    'iterator': {'Iterator', 'Iterable'},
    'int': {'Integral', 'Number', 'Hashable'},
    'object': set(),
}
BUILTIN_TYPES = {'list', 'tuple', 'dict', 'set', 'frozenset', 'int', 'bool', 'str', 'slice', 'object', 'type', 'range', 'float', 'iterator', 'NoneType'}


def short(name):
    return name.rsplit('.', 1)[-1]


class SeqArg:
    pass


class Src:
    """What an iteration delivers: `length` items, item(i) for 0 <= i < length."""

    def __init__(self, eng, elem, seq, length, item, deps=(), rng=None):
        self.eng, self.elem, self.seq, self.length, self.item, self.deps, self.range = eng, elem, seq, length, item, list(deps), rng

    def check_fresh(self):
        self.eng.check_deps(self.deps)


class BuiltinsMixin:
    # ------------------------------------------------------------ helpers
    def E(self):
        import engine
        return engine

    def seqlen(self, elem, s):
        T = self.theory(elem)
        n = T.LEN(s)
        for tm in ([n] + list(n.children()) if z3.is_app(n) else []):
            if z3.is_app(tm) and tm.decl().eq(T.len):
                if self.note_once(('len', tm.get_id()), tm):
                    self.assume(tm >= 0)
        return n

    def note_once(self, key, term):
        c = self.__dict__.setdefault('_once', {})
        tag = id(self.facts)
        if c.get('run') != self.runid:
            c.clear()
            c['run'] = self.runid
        if key in c:
            return False
        c[key] = term
        return True

    def implied(self, cond, what='side condition', ms=1000):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.quick_unsat(Not(c)):
            return True
        if self.scouting:
            return not self.quick_unsat(c)
        return self.proved(c, what, ms=ms)

    def check_deps(self, deps):
        E = self.E()
        for d in deps:
            if d[0] == 'list':
                o = self.heap.get(d[1])
                if not (isinstance(o, E.ListObj) and o.seq is not None and d[2] is not None and o.seq.eq(d[2])) and not (isinstance(o, E.ListObj) and o.seq is None and d[2] is None):
                    raise E.Unsupported('iterator used after the list it reads was changed')
            elif d[0] == 'set':
                if not self.heap[d[1]].s.eq(d[2]):
                    raise E.Unsupported('iterator used after the set it reads was changed')
            elif d[0] == 'dict':
                if not self.heap[d[1]].m.eq(d[2]):
                    raise E.Unsupported('iterator used after the dict it reads was changed')
            elif d[0] == 'map':
                if not self.heap[d[1]].map.eq(d[2]):
                    raise E.Unsupported('iterator used after the dict it reads was changed')
            elif d[0] == 'obj':
                o = self.heap[d[1]]
                if not self.cur_view(o).eq(d[2]):
                    raise E.Unsupported('iterator used after the collection it reads was changed')
            elif d[0] == 'iter':
                self.check_deps(self.heap[d[1]].deps)
            elif d[0] == 'world':
                now = self.contents()
                for k, t in d[1].items():
                    if k not in now or not (t is now[k] or (t is not None and now[k] is not None and t.eq(now[k]))):
                        raise E.Unsupported('generator used after something it may read was changed')
            elif d[0] == 'env':
                if not E.same_val(d[1].env.get(d[2]), d[3]):
                    raise E.Unsupported('generator used after a variable it reads was changed')
            elif d[0] == 'attr':
                o = self.heap[d[1]]
                if not E.same_val(o.attrs.get(d[2]), d[3]):
                    raise E.Unsupported('generator used after an attribute it reads was changed')

    def cur_view(self, o):
        """Current content term of a sorted-list object (folded or not)."""
        if o.folded:
            return o.F
        ls = o.attrs.get('_lists')
        if ls is None:
            raise self.E().Unsupported('no content view')
        e, s = self.lst(ls)
        c = o.meta.get('clean')
        if c is not None and s is not None and c.eq(s):
            return o.F
        return SV.emp if s is None else L.flat(s)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, node=None):
        E = self.E()
        if isinstance(o, E.ObjRef):
            ob = self.heap[o.id]
            if name == '__class__':
                return ob.cls
            if name == '__dict__':
                raise E.Unsupported('__dict__', node)
            m = ob.cls.lookup(name)
            if isinstance(m, E.PropV):
                return self.call(E.BoundV(o, m.f), [], {}, node)
            if ob.folded and m is None:
                self.unfold(o, name)
            if name in ob.attrs:
                v = ob.attrs[name]
                if isinstance(v, E.Poison):
                    raise E.Unsupported(f'use of {v.why}', node)
                if self.reads is not None:
                    self.reads.append(('attr', o.id, name, v))
                return v
            if m is not None:
                if isinstance(m, E.FuncV):
                    return E.BoundV(o, m)
                if isinstance(m, E.CMethV):
                    return E.BoundV(ob.cls, m.f)
                if isinstance(m, E.SMethV):
                    return m.f
                return m
            bb = ob.cls.builtin_bases()
            for b in bb:
                sb = short(b)
                if sb in ('dict', 'object') and hasattr(self, f'm_{"dict" if sb == "dict" else "object"}_{name}'):
                    return E.BoundV(o, E.BuiltinV(f'{sb}.{name}'))
            for b in bb:
                sb = short(b)
                if hasattr(self, f'mixin_{sb}_{name}'):
                    return E.BoundV(o, E.BuiltinV(f'mixin.{sb}.{name}'))
            if name.startswith('__') or any(short(b) in ABC and self._mixin_has(short(b), name) for b in bb):
                raise E.Unsupported(f'inherited attribute {name}', node)
            raise E.PyExc('AttributeError')
        if isinstance(o, E.ListRef):
            return E.BoundV(o, E.BuiltinV('list.' + name))
        if isinstance(o, E.SetRef):
            return E.BoundV(o, E.BuiltinV('set.' + name))
        if isinstance(o, E.DictRef):
            return E.BoundV(o, E.BuiltinV('dict.' + name))
        if isinstance(o, E.PairsV):
            return E.BoundV(o, E.BuiltinV('pairs.' + name))
        if isinstance(o, E.StrV):
            return E.BoundV(o, E.BuiltinV('str.' + name))
        if isinstance(o, E.SliceV):
            if name in ('start', 'stop', 'step'):
                return {'start': o.a, 'stop': o.b, 'step': o.st}[name]
            return E.BoundV(o, E.BuiltinV('slice.' + name))
        if isinstance(o, E.RangeV):
            if name in ('start', 'stop', 'step'):
                return {'start': o.a, 'stop': o.b, 'step': o.st}[name]
            return E.BoundV(o, E.BuiltinV('range.' + name))
        if isinstance(o, E.ClassV):
            if name == '__name__':
                return E.StrV(o.name)
            m = o.lookup(name)
            if m is None:
                for b in o.builtin_bases():
                    if short(b) == 'dict':
                        return E.BuiltinV('dict.' + name)
                if name in ('__new__',):
                    return E.BuiltinV('object.__new__')
                raise E.PyExc('AttributeError')
            if isinstance(m, E.CMethV):
                return E.BoundV(o, m.f)
            if isinstance(m, E.SMethV):
                return m.f
            return m
        if isinstance(o, E.BuiltinV):
            if name == '__name__':
                return E.StrV(short(o.name))
            if name == '__doc__':
                return E.StrV([E.OpaqueV('doc')])
            return E.BuiltinV(o.name + '.' + name)
        if isinstance(o, E.FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return E.StrV(o.name)
            if name == '__doc__':
                return E.StrV([E.OpaqueV('doc')])
            raise E.PyExc('AttributeError')
        if isinstance(o, E.BoundV):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
        if isinstance(o, E.NoneT):
            raise E.PyExc('AttributeError')
        if isinstance(o, E.IterRef) and name == '__next__':
            raise E.Unsupported('__next__', node)
        raise E.Unsupported(f'attribute {name} of {o!r}', node)

    def _mixin_has(self, abc, name):
        import collections.abc as c
        return hasattr(getattr(c, abc, object), name)

    def setattr(self, o, name, v, node=None):
        E = self.E()
        if isinstance(o, E.ObjRef):
            ob = self.heap[o.id]
            m = ob.cls.lookup(name)
            if isinstance(m, E.PropV):
                raise E.PyExc('AttributeError')
            if ob.folded:
                self.unfold(o, name)
            ob.attrs[name] = v
            ob.meta['dirty'] = True
            return
        if isinstance(o, E.FuncV):
            o.attrs[name] = v
            return
        raise E.Unsupported(f'attribute assignment on {o!r}', node)

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n, node):
        """Python index normalisation; IndexError when out of range."""
        E = self.E()
        if self.possible(Or(i < -n, i >= n), 'IndexError'):
            raise E.PyExc('IndexError')
        if z3.is_int_value(z3.simplify(i)):
            iv = z3.simplify(i).as_long()
            return z3.simplify(i + n) if iv < 0 else z3.simplify(i)
        if self.implied(i >= 0, 'index is non-negative'):
            return z3.simplify(i)
        if self.branch(i < 0):
            return z3.simplify(i + n)
        return z3.simplify(i)

    def clamp(self, v, n, default, node):
        """Slice bound (step 1) -> 0..n."""
        E = self.E()
        if isinstance(v, E.NoneT):
            return default
        if isinstance(v, E.BoolV):
            v = E.IntV(If(v.t, 1, 0))
        if not isinstance(v, E.IntV):
            raise E.Unsupported('slice bound', node)
        i = z3.simplify(v.t)
        if self.quick_unsat(Not(And(0 <= i, i <= n))):
            return i
        if self.implied(And(0 <= i, i <= n), 'slice bound in range'):
            self.assume(And(0 <= i, i <= n))
            return i
        if self.in_map:
            # no case splits inside a comprehension element
            if self.implied(i >= 0, 'slice bound is not negative'):
                return If(i < n, i, n)
            return If(i < 0, If(i + n < 0, IntVal(0), i + n), If(i < n, i, n))
        if self.branch(i < 0):
            i = z3.simplify(i + n)
            if self.branch(i < 0):
                return IntVal(0)
            return i
        if self.branch(i > n):
            return n
        return i

    def slice_bounds(self, s, n, node):
        """(lo, hi) with 0<=lo<=hi<=n for a step-1 slice."""
        lo = self.clamp(s.a, n, IntVal(0), node)
        hi = self.clamp(s.b, n, n, node)
        if lo.eq(hi):
            return lo, lo
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return lo, hi
        if hi.eq(n):
            return lo, hi
        if self.implied(lo <= hi, 'slice is ordered'):
            return lo, hi
        if self.in_map:
            return lo, If(lo <= hi, hi, lo)
        if self.branch(lo <= hi):
            return lo, hi
        return lo, lo

    def step_kind(self, s, node):
        E = self.E()
        if isinstance(s.st, E.NoneT):
            return 1
        if isinstance(s.st, E.IntV):
            c = z3.simplify(s.st.t)
            if z3.is_int_value(c):
                return c.as_long()
        raise E.Unsupported('slice step', node)

    def getitem(self, o, ix, node=None):
        E = self.E()
        if self.scouting and isinstance(o, E.ListRef):
            self.touched.add(o.id)
        if isinstance(ix, E.BoolV):
            ix = E.IntV(If(ix.t, 1, 0))
        if isinstance(o, E.TupleV):
            if isinstance(ix, E.IntV):
                c = z3.simplify(ix.t)
                if z3.is_int_value(c):
                    c = c.as_long()
                    if -len(o.items) <= c < len(o.items):
                        return o.items[c]
                    raise E.PyExc('IndexError')
            if isinstance(ix, E.SliceV) and self.step_kind(ix, node) == 1:
                g = lambda v: None if isinstance(v, E.NoneT) else z3.simplify(v.t).as_long()
                try:
                    return E.TupleV(o.items[g(ix.a):g(ix.b)])
                except AttributeError:
                    pass
            raise E.Unsupported('tuple index', node)
        if isinstance(o, E.ListRef):
            e, s = self.lst(o)
            if e is None:
                if isinstance(ix, E.IntV):
                    raise E.PyExc('IndexError')
                return self.new_list(None, None)
            T = self.theory(e)
            n = self.seqlen(e, s)
            if isinstance(ix, E.IntV):
                i = self.norm_index(ix.t, n, node)
                return self.item_of(o, e, s, i)
            if isinstance(ix, E.SliceV):
                st = self.step_kind(ix, node)
                if st == -1 and isinstance(ix.a, E.NoneT) and isinstance(ix.b, E.NoneT) and not self.nested(e):
                    return self.new_list(e, T.rev(s))
                if st != 1:
                    raise E.Unsupported('slice step', node)
                lo, hi = self.slice_bounds(ix, n, node)
                r = T.SL(s, lo, hi)
                ref = self.new_list(e, r)
                if self.nested(e):
                    self.heap[ref.id].shared = ((o.id, s),)
                return ref
            if isinstance(ix, (E.ElemV, E.NoneT)):
                raise E.PyExc('TypeError')
        if isinstance(o, E.ObjRef):
            m = self.heap[o.id].cls.lookup('__getitem__')
            if m is not None:
                return self.call(E.BoundV(o, m), [ix], {}, node)
            if self.heap[o.id].map is not None:
                return self.m_dict___getitem__(o, [ix], {}, node)
        if isinstance(o, E.DictRef):
            return self.m_dict___getitem__(o, [ix], {}, node)
        if isinstance(o, E.RangeV) and isinstance(ix, E.IntV):
            src = self.iter_source(o, node)
            i = self.norm_index(ix.t, src.length, node)
            return src.item(i)
        raise E.Unsupported(f'subscript of {o!r}', node)

    def item_of(self, ref, e, s, i):
        E = self.E()
        T = self.theory(e)
        if self.nested(e):
            o = self.heap[ref.id]
            if isinstance(o, E.InnerLoc):
                raise E.Unsupported('doubly nested list')
            for hid, h in self.heap.items():
                if isinstance(h, E.InnerLoc) and h.outer == ref.id and z3.is_expr(h.idx) and h.idx.eq(i):
                    return E.ListRef(hid)
            return E.ListRef(self.alloc(E.InnerLoc(ref.id, i)))
        return self.wrap(e, T.AT(s, i))

    def setitem(self, o, ix, v, node=None):
        E = self.E()
        if isinstance(o, E.ListRef):
            if isinstance(ix, E.IntV):
                e, s = self.lst(o)
                if e is None:
                    raise E.PyExc('IndexError')
                T = self.theory(e)
                n = self.seqlen(e, s)
                i = self.norm_index(ix.t, n, node)
                k, t = self.elem_of(v)
                if k != e:
                    raise E.Unsupported('list element of another kind', node)
                self.set_seq(o, T.UPD(s, i, t))
                if self.nested(e):
                    for hid, h in list(self.heap.items()):
                        if isinstance(h, E.InnerLoc) and h.outer == o.id and hid != v.id:
                            # other handles to the replaced bucket would dangle
                            if not E_definitely_ne(h.idx, i):
                                self.heap[hid] = E.Poison('handle of a replaced bucket')
                    self.adopt(v, o.id, i)
                return
            if isinstance(ix, E.SliceV) and self.step_kind(ix, node) == 1:
                e, s = self.lst(o)
                r = self.consume_to_list(v, node)
                re_, rs = self.lst(r)
                if e is None:
                    if re_ is not None:
                        self.retype(o, re_)
                        self.set_seq(o, rs)
                        self._adopt_all(o, re_, node)
                    return
                if self.nested(e):
                    if re_ is not None:
                        raise E.Unsupported('slice assignment to a bucket list', node)
                T = self.theory(e)
                n = self.seqlen(e, s)
                lo, hi = self.slice_bounds(ix, n, node)
                rs = T.emp if re_ is None else rs
                if re_ is not None and re_ != e:
                    raise E.Unsupported('list element of another kind', node)
                if self.nested(e):
                    return self.del_range(o, lo, hi)
                self.set_seq(o, T.CAT(T.CAT(T.SL(s, IntVal(0), lo), rs), T.SL(s, hi, n)))
                return
        if isinstance(o, E.DictRef):
            self.hashable(ix)
            d = self.heap[o.id]
            d.m = L.mput(d.m, ix.t, self.elem_of(v)[1])
            return
        if isinstance(o, E.ObjRef):
            m = self.heap[o.id].cls.lookup('__setitem__')
            if m is not None:
                self.call(E.BoundV(o, m), [ix, v], {}, node)
                return
            if self.heap[o.id].map is not None:
                self.m_dict___setitem__(o, [ix, v], {}, node)
                return
        raise E.Unsupported(f'item assignment on {o!r}', node)

    def _adopt_all(self, o, e, node):
        if self.nested(e):
            raise self.E().Unsupported('bucket list replaced wholesale', node)

    def del_range(self, o, lo, hi):
        e, s = self.lst(o)
        T = self.theory(e)
        n = self.seqlen(e, s)
        if lo.eq(hi):
            return
        if self.nested(e):
            full = (z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(n))

            def sh(ix):
                if full:
                    return None
                if self.implied(ix < lo):
                    return ix
                if self.implied(ix >= hi):
                    return z3.simplify(ix - (hi - lo))
                if self.implied(And(lo <= ix, ix < hi)):
                    return None
                raise self.E().Unsupported('bucket handle across a slice deletion')
            self.shift_handles(o.id, sh)
        self.set_seq(o, T.CAT(T.SL(s, IntVal(0), lo), T.SL(s, hi, n)))

    def del_at(self, o, i):
        e, s = self.lst(o)
        T = self.theory(e)
        if self.nested(e):
            def sh(ix):
                if ix.eq(i) or self.implied(ix == i):
                    return None
                if self.implied(ix < i):
                    return ix
                if self.implied(ix > i):
                    return z3.simplify(ix - 1)
                if self.branch(ix == i):
                    return None
                if self.branch(ix < i):
                    return ix
                return z3.simplify(ix - 1)
            self.shift_handles(o.id, sh)
            s = self.lst(o)[1]
        self.set_seq(o, T.REM(s, i))

    def delitem(self, o, ix, node=None):
        E = self.E()
        if isinstance(o, E.ListRef):
            e, s = self.lst(o)
            if e is None:
                if isinstance(ix, E.IntV):
                    raise E.PyExc('IndexError')
                return
            n = self.seqlen(e, s)
            if isinstance(ix, E.IntV):
                self.del_at(o, self.norm_index(ix.t, n, node))
                return
            if isinstance(ix, E.SliceV) and self.step_kind(ix, node) == 1:
                lo, hi = self.slice_bounds(ix, n, node)
                self.del_range(o, lo, hi)
                return
        if isinstance(o, E.ObjRef):
            m = self.heap[o.id].cls.lookup('__delitem__')
            if m is not None:
                self.call(E.BoundV(o, m), [ix], {}, node)
                return
            if self.heap[o.id].map is not None:
                self.m_dict___delitem__(o, [ix], {}, node)
                return
        if isinstance(o, E.DictRef):
            self.m_dict___delitem__(o, [ix], {}, node)
            return
        raise E.Unsupported(f'del item of {o!r}', node)

    # ------------------------------------------------------------ membership
    def hashable(self, v):
        E = self.E()
        if isinstance(v, E.ElemV):
            if v.bad == 'hash':
                raise E.PyExc('TypeError')
            return
        if isinstance(v, (E.ListRef, E.SetRef, E.DictRef)):
            raise E.PyExc('TypeError')
        raise E.Unsupported(f'hash of {v!r}')

    def contains(self, c, x, node=None):
        E = self.E()
        if isinstance(c, E.SetRef):
            self.hashable(x)
            return E.BoolV(L.mem(self.heap[c.id].s, x.t))
        if isinstance(c, E.DictRef):
            self.hashable(x)
            return E.BoolV(L.mem(L.DOM(self.heap[c.id].m), x.t))
        if isinstance(c, E.ObjRef):
            ob = self.heap[c.id]
            m = ob.cls.lookup('__contains__')
            if m is not None:
                r = self.call(E.BoundV(c, m), [x], {}, node)
                if isinstance(r, E.BoolV):
                    return r
                return E.BoolV(self.truth(r, node))
            if ob.map is not None:
                self.hashable(x)
                return E.BoolV(L.mem(L.DOM(ob.map), x.t))
            if 'KeysView' in [short(b) for b in ob.cls.builtin_bases()]:
                return self.contains(ob.attrs['_mapping'], x, node)
        if isinstance(c, E.ListRef) and isinstance(x, E.ElemV):
            e, s = self.lst(c)
            if e is None:
                return E.BoolV(False)
            if e == 'V':
                return E.BoolV(L.first(s, x.t) < self.seqlen(e, s))
        if isinstance(c, E.TupleV):
            r = BoolVal(False)
            for y in c.items:
                q = self.compare('Eq', y, x, node)
                r = Or(r, q.t)
            return E.BoolV(r)
        raise E.Unsupported(f'in {c!r}', node)

    # ------------------------------------------------------------ iteration
    def iter_source(self, v, node=None):
        E = self.E()
        if isinstance(v, E.TupleV):
            v = self.list_of(v.items)
        if isinstance(v, E.ListRef):
            e, s = self.lst(v)
            if e is None:
                return Src(self, None, None, IntVal(0), lambda i: None, [('list', v.id, None)] if isinstance(self.heap[v.id], E.ListObj) else [])
            h = self.heap[v.id]
            base = h.outer if isinstance(h, E.InnerLoc) else v.id
            return Src(self, e, s, self.seqlen(e, s), lambda i: self.item_of(v, e, s, i), [('list', base, self.heap[base].seq)])
        if isinstance(v, E.IterRef):
            io = self.heap[v.id]
            if io.used:
                raise E.Unsupported('iterator used twice', node)
            self.check_deps(io.deps)
            io.used = True
            if io.post is not None:
                io.post()
            if io.src is not None:
                return io.src
            if io.elems is not None:
                n = self.seqlen(*io.elems[0])
                ret = Src(self, None, None, n, lambda i: E.TupleV([self.wrap(e, self.theory(e).AT(s, i)) for e, s in io.elems]), io.deps)
                ret.parts = list(io.elems)
                return ret
            if io.elem is None:
                return Src(self, None, None, IntVal(0), lambda i: None, io.deps)
            ret = Src(self, io.elem, io.seq, self.seqlen(io.elem, io.seq), lambda i: self.wrap(io.elem, self.theory(io.elem).AT(io.seq, i)), io.deps)
            ret.inner_iter = io.inner_iter
            ret.sumlen = getattr(io, 'sumlen', None)
            return ret
        if isinstance(v, E.RangeV):
            a, b, st = v.a.t, v.b.t, v.st.t
            cs = z3.simplify(st)
            if z3.is_int_value(cs) and abs(cs.as_long()) == 1:
                d = z3.simplify(b - a if cs.as_long() == 1 else a - b)
                if self.quick_unsat(d < 0):
                    n = d
                elif self.quick_unsat(d > 0):
                    n = IntVal(0)
                else:
                    n = z3.simplify(If(d > 0, d, 0))
                sg = cs.as_long()
                return Src(self, 'I', None, n, lambda i: E.IntV(z3.simplify(a + sg * i)), [], (a, b, IntVal(sg)))
            n = L.rlen(a, b, st)
            self.assume(n >= 0)
            if not self.implied(st != 0):
                raise E.Unsupported('range step may be zero', node)
            return Src(self, 'I', None, n, lambda i: E.IntV(z3.simplify(a + E.L_mul(i, st))), [], (a, b, st))
        if isinstance(v, E.SetRef):
            s = self.heap[v.id].s
            q = L.SEQOF(s)
            return Src(self, 'V', q, self.seqlen('V', q), lambda i: E.ElemV(SV.AT(q, i)), [('set', v.id, s)])
        if isinstance(v, E.DictRef):
            m = self.heap[v.id].m
            q = L.SEQOF(L.DOM(m))
            return Src(self, 'V', q, self.seqlen('V', q), lambda i: E.ElemV(SV.AT(q, i)), [('dict', v.id, m)])
        if isinstance(v, E.PairsV):
            n = self.seqlen('V', v.ks)
            if getattr(v, 'pykind', 'list') != 'list':
                return Src(self, 'V', v.ks, n, lambda i: E.ElemV(SV.AT(v.ks, i)), [])
            r = Src(self, None, None, n, lambda i: E.TupleV([E.ElemV(SV.AT(v.ks, i)), E.ElemV(SV.AT(v.vs, i))]), [])
            r.parts = [('V', v.ks), ('V', v.vs)]
            return r
        if isinstance(v, E.VarIters):
            raise E.Unsupported('iteration over *args', node)
        if isinstance(v, E.ObjRef):
            ob = self.heap[v.id]
            m = ob.cls.lookup('__iter__')
            if m is not None:
                return self.iter_source(self.call(E.BoundV(v, m), [], {}, node), node)
            bb = [short(b) for b in ob.cls.builtin_bases()]
            if ob.map is not None:
                return self.iter_source(self.m_dict___iter__(v, [], {}, node), node)
            if 'KeysView' in bb:
                return self.iter_source(ob.attrs['_mapping'], node)
            if 'ItemsView' in bb or 'ValuesView' in bb:
                mp = ob.attrs['_mapping']
                ksrc = self.iter_source(mp, node)
                if 'ItemsView' in bb:
                    it = self.map_source(lambda k: E.TupleV([k, self.getitem(mp, k, node)]), ksrc, node)
                else:
                    it = self.map_source(lambda k: self.getitem(mp, k, node), ksrc, node)
                return self.iter_source(it, node)
        raise E.Unsupported(f'iteration over {v!r}', node)

    def new_iter(self, elem, seq, deps, elems=None, inner_iter=False, src=None):
        E = self.E()
        io = E.IterObj(elem, seq, list(deps), elems)
        io.inner_iter = inner_iter
        io.src = src
        return E.IterRef(self.alloc(io))

    def src_seq(self, src, node=None):
        """Closed sequence of a source (materialising ranges)."""
        E = self.E()
        if src.elem is None and src.seq is None:
            if z3.is_int_value(z3.simplify(src.length)) and z3.simplify(src.length).as_long() == 0:
                return None, None
            raise E.Unsupported('sequence of tuples', node)
        if src.seq is not None:
            return src.elem, src.seq
        it = self.map_source(lambda x: x, src, node)
        io = self.heap[it.id]
        return io.elem, io.seq

    def flatten_source(self, src, node=None):
        E = self.E()
        if src.elem is None and src.seq is None:
            if z3.is_int_value(z3.simplify(src.length)) and z3.simplify(src.length).as_long() == 0:
                return self.new_iter(None, None, src.deps)
        if src.elem == 'LV' and src.seq is not None:
            return self.new_iter('V', L.flat(src.seq), src.deps)
        if src.elem == 'LI' and src.seq is not None:
            return self.new_iter('I', L.flatI(src.seq), src.deps)
        raise E.Unsupported('flattening of this iterable', node)

    def consume_to_list(self, v, node=None):
        E = self.E()
        if isinstance(v, E.TupleV):
            return self.list_of(v.items)
        src = v if isinstance(v, Src) else self.iter_source(v, node)
        pt = getattr(src, 'parts', None)
        if src.elem is None and src.seq is None and pt and len(pt) == 2 and all(e == 'V' and s is not None for e, s in pt):
            return E.PairsV(pt[0][1], pt[1][1])      # a list of pairs
        if getattr(src, 'inner_iter', False):
            raise E.Unsupported('list of iterators', node)
        e, s = self.src_seq(src, node)
        if e is None:
            return self.new_list(None, None)
        ref = self.new_list(e, s)
        if self.nested(e):
            for d in src.deps:
                if d[0] == 'list' and d[2] is not None and self.heap[d[1]].seq is not None and d[2].sort() == s.sort():
                    if s.eq(d[2]) or E._contains(s, d[2]):
                        self.heap[ref.id].shared = (self.heap[ref.id].shared or ()) + ((d[1], d[2]),)
        return ref

    def to_set(self, v, node=None):
        E = self.E()
        if isinstance(v, E.SetRef):
            return self.heap[v.id].s
        if isinstance(v, E.DictRef):
            return L.DOM(self.heap[v.id].m)
        if isinstance(v, E.ObjRef):
            ob = self.heap[v.id]
            if ob.map is not None and ob.cls.lookup('__iter__') is None:
                return L.DOM(ob.map)
        if isinstance(v, E.TupleV):
            s = L.semp
            for x in v.items:
                self.hashable(x)
                s = L.sadd(s, x.t)
            return s
        src = self.iter_source(v, node)
        e, s = self.src_seq(src, node)
        if e is None:
            return L.semp
        if e != 'V':
            raise E.Unsupported('set of non-elements', node)
        return L.setof(s)

    def to_map(self, v, node=None):
        E = self.E()
        if isinstance(v, E.DictRef):
            return self.heap[v.id].m
        if isinstance(v, E.PairsV):
            return L.mpairs(v.ks, v.vs)
        if isinstance(v, E.ObjRef):
            ob = self.heap[v.id]
            if ob.map is not None:
                return ob.map
        if isinstance(v, E.TupleV):
            m = L.memp
            for x in v.items:
                m = L.mput(m, x.items[0].t, x.items[1].t)
            return m
        if isinstance(v, E.IterRef):
            io = self.heap[v.id]
            if io.elems is not None and len(io.elems) == 2 and [e for e, _ in io.elems] == ['V', 'V']:
                self.check_deps(io.deps)
                io.used = True
                return L.mpairs(io.elems[0][1], io.elems[1][1])
            if io.elem is None and io.elems is None and getattr(io, 'src', None) is None:
                return L.memp
        if isinstance(v, E.ObjRef):
            bb = [short(b) for b in self.heap[v.id].cls.builtin_bases()]
            if 'ItemsView' in bb:
                src = self.pairs_iter(v, node)
                return self.to_map(src, node)
        raise E.Unsupported(f'mapping from {v!r}', node)

    def pairs_iter(self, v, node=None):
        """IterRef over (key, value) pairs."""
        E = self.E()
        if isinstance(v, E.ObjRef):
            ob = self.heap[v.id]
            bb = [short(b) for b in ob.cls.builtin_bases()]
            if 'ItemsView' in bb and ob.cls.lookup('__iter__') is None:
                mp = ob.attrs['_mapping']
                ksrc = self.iter_source(mp, node)
                return self.map_source(lambda k: E.TupleV([k, self.getitem(mp, k, node)]), ksrc, node)
        if isinstance(v, E.PairsV):
            return self.new_iter(None, None, [], [('V', v.ks), ('V', v.vs)])
        return v

    def copy_list(self, ref):
        e, s = self.lst(ref)
        r = self.new_list(e, s)
        if e is not None and self.nested(e):
            self.heap[r.id].shared = ((ref.id, s),)
        return r

    def list_extend(self, a, b, node=None):
        E = self.E()
        ea, sa = self.lst(a)
        r = b
        if isinstance(b, E.IterRef):
            io = self.heap[b.id]
            ho = self.heap[a.id]
            base = ho.outer if isinstance(ho, E.InnerLoc) else a.id
            if any(d[0] == 'list' and d[1] == base for d in io.deps):
                raise E.Unsupported('extending a list from an iterator over itself', node)
            if getattr(io, 'fresh_elems', False):
                pass
        if not isinstance(b, E.ListRef):
            fresh = isinstance(b, E.IterRef) and getattr(self.heap[b.id], 'fresh_inner', False)
            r = self.consume_to_list(b, node)
        else:
            fresh = False
        eb, sb = self.lst(r)
        if eb is None:
            return
        if self.nested(eb) and not fresh:
            raise E.Unsupported('bucket shared by two lists', node)
        if ea is None:
            self.retype(a, eb)
            ea, sa = eb, self.theory(eb).emp
        if ea != eb:
            raise E.Unsupported('list element of another kind', node)
        T = self.theory(ea)
        self.set_seq(a, sb if sa.eq(T.emp) else T.CAT(sa, sb))

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        E = self.E()
        f = self.eval(n.func, fr)
        args = self.eval_args(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, E.DictRef) and v.id in self.strdict and self.strdict[v.id].eq(self.heap[v.id].m):
                    if not self.heap[v.id].m.eq(L.memp):
                        kw['**'] = E.KwArgs(self.heap[v.id].m)
                else:
                    raise E.Unsupported('** argument', n)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, node=None):
        E = self.E()
        if isinstance(f, E.BoundV):
            if isinstance(f.func, E.FuncV):
                return self.call_func(f.func, [f.self_] + list(args), kw, node, bound=f.self_)
            if isinstance(f.func, E.BuiltinV):
                return self.call_builtin(f.func.name, [f.self_] + list(args), kw, node, bound=True)
            if isinstance(f.func, E.KeyFuncV):
                return self.call(f.func, args, kw, node)
        if isinstance(f, E.FuncV):
            return self.call_func(f, list(args), kw, node)
        if isinstance(f, E.BuiltinV):
            return self.call_builtin(f.name, list(args), kw, node)
        if isinstance(f, E.KeyFuncV):
            if len(args) != 1 or kw:
                raise E.Unsupported('key function arguments', node)
            x = args[0]
            if not isinstance(x, E.ElemV):
                raise E.Unsupported(f'key of {x!r}', node)
            if x.bad == 'maybe' and self.decide(2) == 0:
                self.blown = x.bad
                raise E.PyExc('TypeError')      # the key function itself fails
            k = E.KeyV(L.ord_(x.t))
            k.bad = x.bad
            return k
        if isinstance(f, E.ClassV):
            return self.construct(f, list(args), kw, node)
        if isinstance(f, E.OpaqueV) and f.desc == 'recursive_repr-decorator':
            return args[0]
        raise E.Unsupported(f'call of {f!r}', node)

    def kw_dict(self, kws):
        """The fresh dict of keyword arguments a callee receives."""
        E = self.E()
        d = E.DictRef(self.alloc(E.DictObj(L.memp if kws is None else kws.m)))
        self.strdict[d.id] = self.heap[d.id].m
        return d

    def bind_args(self, f, args, kw, node):
        E = self.E()
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        star = [x for x in args if isinstance(x, E.StarArg)]
        if star:
            # f(*iterables) -> def f(*iterables)
            if a.vararg and len(args) == len(params) + 1 and isinstance(args[-1], E.StarArg):
                for p, v in zip(params, args):
                    env[p] = v
                env[a.vararg.arg] = args[-1].v
                if a.kwarg:
                    env[a.kwarg.arg] = self.kw_dict(None)
                return env
            raise E.Unsupported('star argument', node)
        if len(args) > len(params):
            if not a.vararg:
                raise E.PyExc('TypeError')
            env[a.vararg.arg] = E.TupleV(args[len(params):])
        elif a.vararg:
            env[a.vararg.arg] = E.TupleV([])
        for p, v in zip(params, args):
            env[p] = v
        dstar = kw.pop('**', None)
        for k, v in list(kw.items()):
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    raise E.PyExc('TypeError')
                env[k] = kw.pop(k)
        if a.kwarg:
            if kw:
                raise E.Unsupported('explicit keyword into **kwargs', node)
            env[a.kwarg.arg] = self.kw_dict(dstar)
        elif kw or dstar is not None:
            raise E.PyExc('TypeError')
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            env.setdefault(p, d)
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg in f.kwdefaults:
                    env[p.arg] = f.kwdefaults[p.arg]
                else:
                    raise E.PyExc('TypeError')
        for p in params:
            if p not in env:
                raise E.PyExc('TypeError')
        return env

    def call_func(self, f, args, kw, node, bound=None):
        E = self.E()
        env = self.bind_args(f, args, kw, node)
        if self.contracts_for is not None:
            c = self.contracts_for(self, f, env, node)
            if c is not None:
                return c()
        return self.run_func(f, env, node)

    contracts_for = None

    def run_generator(self, f, fr, node):
        """A generator function without state between items: the iterator of
        what it yields, computed now; valid as long as nothing it could read
        has changed when it is consumed (checked like for other iterators)."""
        E = self.E()
        outer, self.reads = self.reads, []
        before = self.contents(strict=False)
        parts = []
        try:
            for st in f.node.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.YieldFrom):
                    parts.append(self.b_iter([self.eval(st.value.value, fr)], {}, node))
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Yield) and st.value.value is not None:
                    parts.append(E.TupleV([self.eval(st.value.value, fr)]))
                elif any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(st)):
                    parts.append(self.gen_for(st, fr, node))
                else:
                    self.exec_stmt(st, fr)
        except E.ReturnEx:
            pass
        except E.PyExc as e:
            raise E.Unsupported(f'{e.name} inside a generator', node)
        finally:
            reads, self.reads = self.reads, outer
        if outer is not None:
            outer.extend(reads)
        after = self.contents(strict=False)
        for k, t in before.items():
            if k not in after or not (t is after[k] or (t is not None and after[k] is not None and t.eq(after[k]))):
                raise E.Unsupported('a generator that changes something', node)
        deps = [('world', self.contents())] + [r for r in reads if r[0] == 'attr' and r[1] in before]
        if len(parts) == 1:
            it = parts[0] if isinstance(parts[0], E.IterRef) else self.b_iter(parts, {}, node)
        else:
            it = self.b_chain(parts, {}, node)
        self.heap[it.id].deps += deps
        return it

    def gen_for(self, st, fr, node):
        E = self.E()
        if not isinstance(st, ast.For) or st.orelse or len(st.body) != 1:
            raise E.Unsupported('generator function', node)
        b = st.body[0]
        mk = lambda elt: self.e_GeneratorExp(ast.copy_location(ast.GeneratorExp(elt, [ast.comprehension(st.target, st.iter, [], 0)]), st), fr)
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield) and b.value.value is not None:
            return mk(b.value.value)
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.YieldFrom):
            inner = b.value.value
        elif isinstance(b, ast.For) and not b.orelse and len(b.body) == 1 and isinstance(b.target, ast.Name) and isinstance(b.body[0], ast.Expr) \
                and isinstance(b.body[0].value, ast.Yield) and isinstance(b.body[0].value.value, ast.Name) and b.body[0].value.value.id == b.target.id:
            inner = b.iter
        else:
            raise E.Unsupported('generator function', node)
        return self.flatten_source(self.iter_source(mk(inner), node), node)

    def contents(self, strict=True):
        """The content of everything that exists (iterators aside)."""
        E = self.E()
        out = {}
        for k, o in self.heap.items():
            if isinstance(o, E.ListObj):
                out[k] = o.seq
            elif isinstance(o, E.SetObj):
                out[k] = o.s
            elif isinstance(o, E.DictObj):
                out[k] = o.m
            elif isinstance(o, E.InstObj):
                if o.map is not None:
                    out[k] = o.map
                elif self.is_sl(o) and (o.folded or '_lists' in o.attrs):
                    try:
                        out[k] = self.cur_view(o)
                    except E.Unsupported:
                        pass
        return out

    def run_func(self, f, env, node=None):
        E = self.E()
        self.depth += 1
        if self.depth > 14:
            self.depth -= 1
            raise E.Unsupported(f'call depth at {f.name}', node)
        fr = E.Frame(f, env, f.module)
        self.frames.append(fr)
        line = self.cur_line
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
                return self.run_generator(f, fr, node)
            self.exec_block(f.node.body, fr)
            return E.NONE
        except E.ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_line = line

    def construct(self, cls, args, kw, node):
        E = self.E()
        new = cls.lookup('__new__')
        if isinstance(new, E.SMethV):
            new = new.f
        if isinstance(new, E.FuncV):
            o = self.call_func(new, [cls] + list(args), kw, node)
        else:
            o = self.new_instance(cls)
        if isinstance(o, E.ObjRef) and cls in self.heap[o.id].cls.mro():
            init = self.heap[o.id].cls.lookup('__init__')
            if init is not None:
                r = self.call_func(init, [o] + list(args), kw, node, bound=o)
                if not isinstance(r, E.NoneT):
                    raise E.PyExc('TypeError')
            else:
                bb = [short(b) for b in cls.builtin_bases()]
                if set(bb) & {'KeysView', 'ItemsView', 'ValuesView'}:
                    if len(args) != 1 or kw:
                        raise E.PyExc('TypeError')
                    self.heap[o.id].attrs['_mapping'] = args[0]
                elif args or kw:
                    raise E.Unsupported('constructor arguments', node)
        return o

    def new_instance(self, cls):
        E = self.E()
        ob = E.InstObj(cls)
        bb = [short(b) for b in cls.builtin_bases()]
        if 'dict' in bb:
            ob.map = L.memp
        elif set(bb) & {'list', 'set', 'tuple', 'int', 'str'}:
            raise E.Unsupported('subclass of a built-in container')
        return E.ObjRef(self.alloc(ob))

    def call_builtin(self, name, args, kw, node, bound=False):
        E = self.E()
        cands = ['b_' + name.replace('.', '_')]
        sh = short(name)
        mod = name.split('.')[0]
        if '.' in name:
            if mod in ('list', 'set', 'dict', 'str', 'slice', 'range', 'pairs', 'object', 'frozenset'):
                if mod == 'pairs':
                    if hasattr(self, 'm_pairs_' + sh):
                        return getattr(self, 'm_pairs_' + sh)(args[0], args[1:], kw, node)
                    raise E.Unsupported(f'method {name}', node)
                mod = 'set' if mod == 'frozenset' else mod
                m = getattr(self, f'm_{mod}_{sh}', None)
                if m is None:
                    raise E.Unsupported(f'method {name}', node)
                if not args:
                    raise E.Unsupported(f'{name} without arguments', node)
                return m(args[0], args[1:], kw, node)
            if mod == 'mixin':
                m = getattr(self, f'mixin_{name.split(".")[1]}_{sh}')
                return m(args[0], args[1:], kw, node)
            if name.endswith('chain.from_iterable'):
                return self.b_chain_from_iterable(args, kw, node)
            if mod in ('bisect', 'functools', 'itertools', 'operator', 'math', 'textwrap', 'reprlib', 'warnings', 'collections', 'sys', 'traceback', 'copy'):
                m = getattr(self, 'b_' + sh, None)
                if m is not None:
                    return m(args, kw, node)
            raise E.Unsupported(f'call of {name}', node)
        if name in E.EXC_PARENTS:
            return E.OpaqueV('exc:' + name)
        m = getattr(self, 'b_' + name, None)
        if m is None:
            raise E.Unsupported(f'built-in {name}', node)
        return m(args, kw, node)

    def nokw(self, kw, node, allowed=()):
        if set(kw) - set(allowed):
            raise self.E().Unsupported(f'keyword arguments {sorted(kw)}', node)

    # ---- functions
    def b_len(self, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.TupleV):
            return E.IntV(len(v.items))
        if isinstance(v, E.ListRef):
            e, s = self.lst(v)
            if e is None:
                return E.IntV(0)
            return E.IntV(self.seqlen(e, s))
        if isinstance(v, E.SetRef):
            c = L.CARD(self.heap[v.id].s)
            self.assume(c >= 0)
            return E.IntV(c)
        if isinstance(v, E.DictRef):
            c = L.CARD(L.DOM(self.heap[v.id].m))
            self.assume(c >= 0)
            return E.IntV(c)
        if isinstance(v, E.ObjRef):
            ob = self.heap[v.id]
            m = ob.cls.lookup('__len__')
            if m is not None:
                return self.call(E.BoundV(v, m), [], {}, node)
            if ob.map is not None:
                c = L.CARD(L.DOM(ob.map))
                self.assume(c >= 0)
                return E.IntV(c)
            if '_mapping' in ob.attrs:
                return self.b_len([ob.attrs['_mapping']], {}, node)
        if isinstance(v, E.RangeV):
            return E.IntV(self.iter_source(v, node).length)
        if isinstance(v, E.StrV):
            return E.IntV(self.fresh_int('strlen'))
        if isinstance(v, (E.NoneT, E.IntV, E.IterRef)):
            raise E.PyExc('TypeError')
        raise E.Unsupported(f'len of {v!r}', node)

    def b_range(self, args, kw, node):
        E = self.E()
        if not all(isinstance(a, E.IntV) for a in args):
            raise E.Unsupported('range arguments', node)
        a, b, st = E.IntV(0), None, E.IntV(1)
        if len(args) == 1:
            b = args[0]
        elif len(args) == 2:
            a, b = args
        else:
            a, b, st = args
        if self.possible(st.t == 0, 'ValueError'):
            raise E.PyExc('ValueError')
        return E.RangeV(a, b, st)

    def b_reversed(self, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.RangeV):
            src = self.iter_source(v, node)
            a, b, st = src.range
            n = src.length
            item = src.item
            r = Src(self, 'I', None, n, lambda i: item(z3.simplify(n - 1 - i)), [], None)
            r.revrange = (a, b, st)
            return self.new_iter('I', None, [], src=r)
        if isinstance(v, E.ListRef):
            src = self.iter_source(v, node)
            if src.elem is None:
                return self.new_iter(None, None, src.deps)
            T = self.theory(src.elem)
            n, item = src.length, src.item
            r = Src(self, src.elem, T.rev(src.seq), n, lambda i: item(z3.simplify(n - 1 - i)), src.deps)
            return self.new_iter(src.elem, T.rev(src.seq), src.deps, src=r)
        if isinstance(v, E.TupleV):
            return E.TupleV(list(reversed(v.items)))
        if isinstance(v, E.ObjRef):
            m = self.heap[v.id].cls.lookup('__reversed__')
            if m is not None:
                return self.call(E.BoundV(v, m), [], {}, node)
        raise E.Unsupported(f'reversed of {v!r}', node)

    def b_iter(self, args, kw, node):
        E = self.E()
        v = args[0]
        if len(args) != 1:
            raise E.Unsupported('iter with sentinel', node)
        if isinstance(v, E.IterRef):
            return v
        if isinstance(v, E.TupleV) and not v.items:
            return self.new_iter('V', SV.emp, [])
        if isinstance(v, E.ObjRef):
            m = self.heap[v.id].cls.lookup('__iter__')
            if m is not None:
                return self.call(E.BoundV(v, m), [], {}, node)
        src = self.iter_source(v, node)
        return self.new_iter(src.elem, src.seq, src.deps, src=src)

    def b_list(self, args, kw, node):
        if not args:
            return self.new_list(None, None)
        return self.consume_to_list(args[0], node)

    def b_tuple(self, args, kw, node):
        E = self.E()
        if not args:
            return E.TupleV([])
        if isinstance(args[0], E.TupleV):
            return args[0]
        raise E.Unsupported('tuple of unknown length', node)

    def sort_seq(self, e, s, kw, node):
        E = self.E()
        key = kw.get('key', E.NONE)
        rv = kw.get('reverse')
        if rv is not None and not (isinstance(rv, E.BoolV) and z3.is_false(z3.simplify(rv.t))):
            raise E.Unsupported('sort reverse', node)
        if e != 'V':
            raise E.Unsupported('sorting of non-elements', node)
        if isinstance(key, E.KeyFuncV):
            return L.SSORT(s)
        if isinstance(key, E.NoneT):
            return L.SSORT(s) if self.mode == 'plain' else L.nsort(s)
        raise E.Unsupported('sort key', node)

    def b_sorted(self, args, kw, node):
        r = self.consume_to_list(args[0], node)
        e, s = self.lst(r)
        if e is None:
            return r
        o = self.heap[r.id]
        o.seq = self.sort_seq(e, s, kw, node)
        o.shared = None
        return r

    def bisect_pos(self, which, args, kw, node):
        E = self.E()
        self.nokw(kw, node, ('lo', 'hi', 'key'))
        l, x = args[0], args[1]
        lo = args[2] if len(args) > 2 else kw.get('lo')
        hi = args[3] if len(args) > 3 else kw.get('hi')
        kf = kw.get('key')
        if not isinstance(l, E.ListRef):
            raise E.Unsupported('bisect on a non-list', node)
        e, s = self.lst(l)
        if e is None:
            return IntVal(0)
        T = self.theory(e)
        n = self.seqlen(e, s)
        base = IntVal(0)
        if lo is not None or (hi is not None and not isinstance(hi, E.NoneT)):
            a = lo.t if lo is not None else IntVal(0)
            b = hi.t if hi is not None and not isinstance(hi, E.NoneT) else n
            if not self.implied(And(0 <= a, a <= b, b <= n)):
                raise E.Unsupported('bisect bounds', node)
            s = T.SL(s, a, b)
            n = z3.simplify(b - a)
            base = a
        if kf is not None and not isinstance(kf, E.NoneT):
            if not (isinstance(kf, E.KeyFuncV) and e == 'V' and isinstance(x, E.KeyV)):
                raise E.Unsupported('bisect key', node)
            rank = x.t
        elif e == 'V':
            if not isinstance(x, E.ElemV):
                raise E.PyExc('TypeError')
            if self.mode != 'plain':
                self.order_compare(x, n)
                p = self.fresh_int('bis')
                self.assume(And(base <= p, p <= base + n))
                return p
            rank = L.ord_(x.t)
        elif e in ('K', 'I'):
            if e == 'K' and not isinstance(x, E.KeyV) or e == 'I' and not isinstance(x, E.IntV):
                raise E.Unsupported('bisect of another kind', node)
            rank = x.t
        else:
            raise E.Unsupported('bisect on nested list', node)
        self.order_compare(x, n)
        fn = {('V', 'l'): L.bl, ('V', 'r'): L.br, ('I', 'l'): L.blI, ('I', 'r'): L.brI}['V' if e == 'V' else 'I', which]
        p = fn(s, rank)
        if self.note_once(('bis', p.get_id()), p):
            self.assume(And(0 <= p, p <= n))
        return z3.simplify(base + p)

    def order_compare(self, x, n):
        """x is compared with some of n values."""
        E = self.E()
        bad = getattr(x, 'bad', False)
        if bad and self.branch(n > 0):
            if bad == 'maybe' and self.decide(2) == 1:
                return
            self.blown = bad
            raise E.PyExc('TypeError')

    def b_bisect_left(self, args, kw, node):
        return self.E().IntV(self.bisect_pos('l', args, kw, node))

    def b_bisect_right(self, args, kw, node):
        return self.E().IntV(self.bisect_pos('r', args, kw, node))

    b_bisect = b_bisect_right

    def _insort(self, which, args, kw, node):
        E = self.E()
        l, x = args[0], args[1]
        bargs = list(args)
        kf = kw.get('key')
        if kf is not None and not isinstance(kf, E.NoneT):
            bargs[1] = self.call(kf, [x], {}, node)
        p = self.bisect_pos(which, bargs, kw, node)
        return self.m_list_insert(l, [E.IntV(p), x], {}, node)

    def b_insort_right(self, args, kw, node):
        return self._insort('r', args, kw, node)

    b_insort = b_insort_right

    def b_insort_left(self, args, kw, node):
        return self._insort('l', args, kw, node)

    def b_reduce(self, args, kw, node):
        E = self.E()
        f = args[0]
        if not (isinstance(f, E.BuiltinV) and short(f.name) in ('iadd', 'add', 'concat', 'iconcat')):
            raise E.Unsupported('reduce with this function', node)
        inplace = short(f.name) in ('iadd', 'iconcat')
        it = args[1]
        if len(args) > 2:
            init = args[2]
        else:
            if not (isinstance(it, E.ListRef) and self.lst(it)[0] is not None and self.nested(self.lst(it)[0])):
                raise E.Unsupported('reduce without initial value', node)
            e, s = self.lst(it)
            n = self.seqlen(e, s)
            if self.possible(n == 0, 'TypeError'):
                raise E.PyExc('TypeError')
            first = self.item_of(it, e, s, IntVal(0))
            T = self.theory(e[1])
            fl = L.flat(s) if e == 'LV' else None
            if fl is None:
                raise E.Unsupported('reduce over this list', node)
            if inplace:
                if self.branch(n == 1):
                    return first
                self.set_seq(first, fl)
                return first
            if self.branch(n == 1):
                return first
            return self.new_list('V', fl)
        if not isinstance(init, E.ListRef):
            raise E.Unsupported('reduce over this', node)
        if isinstance(it, E.TupleV):
            for x in it.items:
                init = self.binop('Add', init, x, node, inplace=inplace)
            return init
        src = self.iter_source(it, node)
        if src.elem is None and src.seq is None:
            return init
        if src.elem is None or not self.nested(src.elem):
            raise E.Unsupported('reduce over this', node)
        if not inplace:
            init = self.copy_list(init)
        h = self.heap[init.id]
        if isinstance(h, E.InnerLoc) and any(d[0] == 'list' and d[1] == h.outer for d in src.deps):
            raise E.Unsupported('reduce(iadd) into a bucket of the list being reduced', node)
        fi = self.flatten_source(src, node)
        self.list_extend(init, fi, node)
        return init

    def b_chain(self, args, kw, node):
        E = self.E()
        parts, deps, pairs = [], [], []
        for a in args:
            if isinstance(a, E.StarArg):
                v = a.v
                if isinstance(v, E.VarIters):
                    parts.append(('V', v.seqall))
                    continue
                raise E.Unsupported('chain(*x)', node)
            a2 = self.pairs_iter(a, node)
            if isinstance(a2, E.IterRef) and self.heap[a2.id].elems is not None and getattr(self.heap[a2.id], 'src', None) is None:
                io = self.heap[a2.id]
                io.used = True
                pairs.append(io.elems)
                deps += io.deps
                continue
            if isinstance(a2, E.TupleV):
                if not a2.items:
                    continue
                a2 = self.list_of(a2.items)
            src = self.iter_source(a2, node)
            e, s = self.src_seq(src, node)
            if e is None:
                continue
            parts.append((e, s))
            deps += src.deps
        if pairs and parts:
            raise E.Unsupported('chain of mixed kinds', node)
        if pairs:
            ks, vs = SV.emp, SV.emp
            for (ek, k), (ev, v) in pairs:
                ks, vs = SV.CAT(ks, k), SV.CAT(vs, v)
            return self.new_iter(None, None, deps, [('V', ks), ('V', vs)])
        if not parts:
            return self.new_iter(None, None, deps)
        e = parts[0][0]
        if any(p[0] != e for p in parts):
            raise E.Unsupported('chain of mixed kinds', node)
        T = self.theory(e)
        s = T.emp
        for p in parts:
            s = T.CAT(s, p[1])
        return self.new_iter(e, s, deps)

    def b_chain_from_iterable(self, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.TupleV):
            return self.b_chain(v.items, {}, node)
        if isinstance(v, E.VarIters):
            return self.new_iter('V', v.seqall, [])
        return self.flatten_source(self.iter_source(v, node), node)

    def b_zip(self, args, kw, node):
        E = self.E()
        self.nokw(kw, node)
        if len(args) == 2 and isinstance(args[0], E.IterRef) and isinstance(args[1], E.IterRef) and args[0].id == args[1].id:
            src = self.iter_source(args[0], node)
            n = self.half(src.length)
            it = src.item
            r = Src(self, None, None, n, lambda i: E.TupleV([it(z3.simplify(2 * i)), it(z3.simplify(2 * i + 1))]), src.deps)
            return self.new_iter(None, None, src.deps, src=r)
        srcs = [self.iter_source(a, node) for a in args]
        n = srcs[0].length
        for s in srcs[1:]:
            if not s.length.eq(n):
                if self.implied(s.length == n):
                    continue
                n = If(s.length < n, s.length, n)
        deps = sum((s.deps for s in srcs), [])
        if all(s.elem == 'V' and s.seq is not None for s in srcs) and len(srcs) == 2 and all(s.length.eq(n) for s in srcs):
            return self.new_iter(None, None, deps, [('V', s.seq) for s in srcs])
        r = Src(self, None, None, n, lambda i: E.TupleV([s.item(i) for s in srcs]), deps)
        r.parts = [(s.elem, s.seq) for s in srcs]
        return self.new_iter(None, None, deps, src=r)

    def b_enumerate(self, args, kw, node):
        E = self.E()
        src = self.iter_source(args[0], node)
        st = args[1].t if len(args) > 1 else (kw['start'].t if 'start' in kw else IntVal(0))
        r = Src(self, None, None, src.length, lambda i: E.TupleV([E.IntV(z3.simplify(i + st)), src.item(i)]), src.deps)
        return self.new_iter(None, None, src.deps, src=r)

    def b_starmap(self, args, kw, node):
        E = self.E()
        return self.map_source(lambda t: self.call(args[0], list(t.items), {}, node), self.iter_source(args[1], node), node)

    def b_map(self, args, kw, node):
        E = self.E()
        f = args[0]
        if len(args) == 2:
            return self.map_source(lambda x: self.call(f, [x], {}, node), self.iter_source(args[1], node), node)
        z = self.b_zip(args[1:], {}, node)
        return self.map_source(lambda t: self.call(f, list(t.items), {}, node), self.iter_source(z, node), node)

    def b_repeat(self, args, kw, node):
        E = self.E()
        if len(args) != 2 or not isinstance(args[1], E.IntV):
            raise E.Unsupported('repeat', node)
        n = args[1].t
        n = z3.simplify(n) if self.implied(n >= 0) else If(n > 0, n, 0)
        e, t = self.elem_of(args[0])
        T = self.theory(e)
        R = self.fresh('rept', T.sort)
        q = z3.Int('q_i')
        self.assume(T.len(R) == n)
        self.facts.append(ForAll([q], Implies(And(0 <= q, q < n), T.at(R, q) == t), patterns=[T.at(R, q)]))
        return self.new_iter(e, R, [])

    def b_sum(self, args, kw, node):
        E = self.E()
        if len(args) == 1 and not kw and isinstance(args[0], E.CountV):
            return E.IntV(args[0].t)
        src = self.iter_source(args[0], node)
        # sum(len(x) for x in lists)
        t = self.sum_len(src)
        if t is None:
            raise E.Unsupported('sum', node)
        return E.IntV(t)

    def sum_len(self, src):
        return getattr(src, 'sumlen', None)

    def _allany(self, args, node, is_all):
        E = self.E()
        v = args[0]
        if isinstance(v, E.IterRef) and self.heap[v.id].boolmap is not None:
            io = self.heap[v.id]
            if io.used:
                raise E.Unsupported('iterator used twice', node)
            self.check_deps(io.deps)
            io.used = True
            return E.BoolV(io.boolmap if is_all else self._unsup('any', node))
        raise E.Unsupported('all/any', node)

    def _unsup(self, what, node):
        raise self.E().Unsupported(what, node)

    def b_all(self, args, kw, node):
        return self._allany(args, node, True)

    def b_any(self, args, kw, node):
        return self._allany(args, node, False)

    def b_max(self, args, kw, node):
        E = self.E()
        if len(args) == 2 and all(isinstance(a, E.IntV) for a in args):
            return args[0] if self.branch(args[0].t >= args[1].t) else args[1]
        raise E.Unsupported('max', node)

    def b_min(self, args, kw, node):
        E = self.E()
        if len(args) == 2 and all(isinstance(a, E.IntV) for a in args):
            return args[0] if self.branch(args[0].t <= args[1].t) else args[1]
        raise E.Unsupported('min', node)

    def b_abs(self, args, kw, node):
        E = self.E()
        if isinstance(args[0], E.IntV):
            return E.IntV(If(args[0].t >= 0, args[0].t, -args[0].t))
        raise E.Unsupported('abs', node)

    def b_divmod(self, args, kw, node):
        E = self.E()
        return E.TupleV([self.binop('FloorDiv', args[0], args[1], node), self.binop('Mod', args[0], args[1], node)])

    def b_log(self, args, kw, node):
        E = self.E()
        if len(args) != 2 or not (isinstance(args[1], E.IntV) and z3.simplify(args[1].t).eq(IntVal(2))) or not isinstance(args[0], E.IntV):
            raise E.Unsupported('log', node)
        if self.possible(args[0].t <= 0, 'ValueError'):
            raise E.PyExc('ValueError')
        return E.FloatV(args[0].t)

    def b_log2(self, args, kw, node):
        return self.b_log([args[0], self.E().IntV(2)], {}, node)

    def b_int(self, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.FloatV):
            t = L.flog2(v.log2_of)
            self.assume(t >= 0)
            return E.IntV(t)
        if isinstance(v, E.IntV):
            return v
        if isinstance(v, E.BoolV):
            return E.IntV(If(v.t, 1, 0))
        raise E.Unsupported('int()', node)

    def b_bool(self, args, kw, node):
        E = self.E()
        if isinstance(args[0], E.BoolV):
            return args[0]
        return E.BoolV(self.truth(args[0], node))

    def b_str(self, args, kw, node):
        E = self.E()
        return E.StrV([E.OpaqueV('str')])

    b_repr = b_str

    def b_print(self, args, kw, node):
        return self.E().NONE

    b_print_exc = b_print
    b_warn = b_print

    def b_dedent(self, args, kw, node):
        return args[0]

    def b_recursive_repr(self, args, kw, node):
        return self.E().OpaqueV('recursive_repr-decorator')

    def b_callable(self, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, (E.KeyFuncV, E.FuncV, E.BoundV, E.BuiltinV, E.ClassV)):
            return E.BoolV(True)
        if isinstance(v, (E.NoneT, E.ListRef, E.SetRef, E.DictRef, E.PairsV, E.IntV, E.IterRef, E.TupleV)):
            return E.BoolV(False)
        if isinstance(v, E.ObjRef):
            return E.BoolV(self.heap[v.id].cls.lookup('__call__') is not None)
        raise E.Unsupported(f'callable {v!r}', node)

    def b_hasattr(self, args, kw, node):
        E = self.E()
        nm = self.strconst(args[1], node)
        try:
            self.getattr(args[0], nm, node)
            return E.BoolV(True)
        except E.PyExc as e:
            if e.name == 'AttributeError':
                return E.BoolV(False)
            raise

    def b_getattr(self, args, kw, node):
        E = self.E()
        nm = self.strconst(args[1], node)
        try:
            return self.getattr(args[0], nm, node)
        except E.PyExc as e:
            if e.name == 'AttributeError' and len(args) > 2:
                return args[2]
            raise

    def b_setattr(self, args, kw, node):
        self.setattr(args[0], self.strconst(args[1], node), args[2], node)
        return self.E().NONE

    def strconst(self, v, node):
        E = self.E()
        if isinstance(v, E.StrV) and all(isinstance(p, str) for p in v.parts):
            return ''.join(v.parts)
        raise E.Unsupported('computed attribute name', node)

    def b_id(self, args, kw, node):
        raise self.E().Unsupported('id()', node)

    def type_names(self, v):
        """Every class name v is known to be an instance of; None if unknown."""
        E = self.E()
        if isinstance(v, E.ListRef):
            return {'list'} | ABC['list']
        if isinstance(v, E.TupleV):
            return {'tuple'} | ABC['tuple']
        if isinstance(v, E.SetRef):
            return {'set'} | ABC['set']
        if isinstance(v, E.DictRef):
            return {'dict'} | ABC['dict']
        if isinstance(v, E.RangeV):
            return {'range'} | ABC['range']
        if isinstance(v, E.IterRef):
            return {'iterator'} | ABC['iterator']
        if isinstance(v, E.BoolV):
            return {'bool', 'int'} | ABC['int']
        if isinstance(v, E.IntV):
            return {'int'} | ABC['int']
        if isinstance(v, E.SliceV):
            return {'slice'}
        if isinstance(v, E.StrV):
            return {'str', 'Sequence', 'Collection', 'Iterable', 'Sized', 'Container'}
        if isinstance(v, E.NoneT):
            return {'NoneType'}
        return None

    def b_isinstance(self, args, kw, node):
        E = self.E()
        v, c = args
        if isinstance(c, E.TupleV):
            r = False
            for x in c.items:
                b = self.b_isinstance([v, x], {}, node)
                r = r or z3.is_true(z3.simplify(b.t))
            return E.BoolV(r)
        if isinstance(v, E.ObjRef):
            mro = self.heap[v.id].cls.mro()
            if isinstance(c, E.ClassV):
                return E.BoolV(c in mro)
            if isinstance(c, E.BuiltinV):
                names = set()
                for b in mro:
                    if isinstance(b, E.BuiltinV):
                        names |= {short(b.name)} | ABC.get(short(b.name), set())
                return E.BoolV(short(c.name) in names or short(c.name) == 'object')
        if isinstance(v, E.OpaqueV) and v.isa is not None:
            nm = c.name if isinstance(c, E.ClassV) else short(c.name)
            if nm in v.isa:
                return E.BoolV(v.isa[nm])
            if v.isa.get('*') is False:
                return E.BoolV(False)
            raise E.Unsupported(f'isinstance(unknown, {nm})', node)
        if isinstance(v, E.PairsV):
            nm = c.name if isinstance(c, E.ClassV) else short(c.name)
            kind = getattr(v, 'pykind', 'list')
            return E.BoolV(nm == kind or nm in ABC.get(kind, set()))
        t = self.type_names(v)
        if t is not None:
            if isinstance(c, E.ClassV):
                return E.BoolV(False)
            return E.BoolV(short(c.name) in t or short(c.name) == 'object')
        raise E.Unsupported(f'isinstance of {v!r}', node)

    def b_issubclass(self, args, kw, node):
        E = self.E()
        if isinstance(args[0], E.ClassV) and isinstance(args[1], E.ClassV):
            return E.BoolV(args[1] in args[0].mro())
        raise E.Unsupported('issubclass', node)

    def b_type(self, args, kw, node):
        E = self.E()
        if len(args) == 1 and isinstance(args[0], E.ObjRef):
            return self.heap[args[0].id].cls
        if len(args) == 1:
            t = {E.ListRef: 'list', E.SetRef: 'set', E.DictRef: 'dict', E.IntV: 'int', E.TupleV: 'tuple', E.SliceV: 'slice'}.get(type(args[0]))
            if t:
                return E.BuiltinV(t)
        raise E.Unsupported('type()', node)

    def b_staticmethod(self, args, kw, node):
        return self.E().SMethV(args[0])

    def b_classmethod(self, args, kw, node):
        return self.E().CMethV(args[0])

    def b_property(self, args, kw, node):
        return self.E().PropV(args[0])

    def b_super(self, args, kw, node):
        raise self.E().Unsupported('super()', node)

    def b_set(self, args, kw, node):
        E = self.E()
        if not args:
            return E.SetRef(self.alloc(E.SetObj(L.semp)))
        return E.SetRef(self.alloc(E.SetObj(self.to_set(args[0], node))))

    b_frozenset = b_set

    def b_slice(self, args, kw, node):
        E = self.E()
        a, b, st = E.NONE, E.NONE, E.NONE
        if len(args) == 1:
            b = args[0]
        elif len(args) == 2:
            a, b = args
        else:
            a, b, st = args
        return E.SliceV(a, b, st)

    def dict_map(self, args, kw, node):
        E = self.E()
        kws = kw.get('**')
        if set(kw) - {'**'}:
            raise E.Unsupported('dict keyword arguments', node)
        if not args:
            m = L.memp
        elif len(args) == 1:
            m = self.to_map(args[0], node)
        else:
            raise E.PyExc('TypeError')
        if kws is not None and kws.nonempty:
            m = kws.m if m.eq(L.memp) else L.mmerge(m, kws.m)
        return m

    def b_dict(self, args, kw, node):
        E = self.E()
        return E.DictRef(self.alloc(E.DictObj(self.dict_map(args, kw, node))))

    def b_hash(self, args, kw, node):
        self.hashable(args[0])
        return self.E().IntV(self.fresh_int('hash'))

    def b_vars(self, args, kw, node):
        raise self.E().Unsupported('vars()', node)

    # operator module
    def b_add(self, args, kw, node):
        return self.binop('Add', args[0], args[1], node)

    def b_sub(self, args, kw, node):
        return self.binop('Sub', args[0], args[1], node)

    def b_iadd(self, args, kw, node):
        return self.binop('Add', args[0], args[1], node, inplace=True)

    def b_eq(self, args, kw, node):
        return self.compare('Eq', args[0], args[1], node)

    def b_ne(self, args, kw, node):
        return self.compare('NotEq', args[0], args[1], node)

    def b_lt(self, args, kw, node):
        return self.compare('Lt', args[0], args[1], node)

    def b_le(self, args, kw, node):
        return self.compare('LtE', args[0], args[1], node)

    def b_gt(self, args, kw, node):
        return self.compare('Gt', args[0], args[1], node)

    def b_ge(self, args, kw, node):
        return self.compare('GtE', args[0], args[1], node)

    def b_getitem(self, args, kw, node):
        return self.getitem(args[0], args[1], node)

    def b_delitem(self, args, kw, node):
        self.delitem(args[0], args[1], node)
        return self.E().NONE

    # ---- object
    def m_object___new__(self, cls, args, kw, node):
        return self.new_instance(cls)

    def m_object___init__(self, o, args, kw, node):
        return self.E().NONE

    # ---- slice
    def m_slice_indices(self, s, args, kw, node):
        E = self.E()
        n = args[0].t
        st = s.st
        if isinstance(st, E.NoneT):
            step = IntVal(1)
        else:
            step = st.t
            if self.possible(step == 0, 'ValueError', full=False):
                raise E.PyExc('ValueError')
        neg = self.branch(step < 0)
        lower, upper = (IntVal(-1), n - 1) if neg else (IntVal(0), n)

        def one(v, default):
            if isinstance(v, E.NoneT):
                return default
            if isinstance(v, E.BoolV):
                v = E.IntV(If(v.t, 1, 0))
            i = v.t
            if self.quick_unsat(Not(And(0 <= i, i <= upper))):
                return i
            if self.branch(i < 0):
                i = i + n
                return lower if self.branch(i < lower) else i
            return upper if self.branch(i > upper) else i
        if neg:
            a, b = one(s.a, upper), one(s.b, lower)
        else:
            a, b = one(s.a, lower), one(s.b, upper)
        sp = z3.simplify
        return E.TupleV([E.IntV(sp(a)), E.IntV(sp(b)), E.IntV(sp(step))])

    # ---- str
    def m_str_format(self, s, args, kw, node):
        E = self.E()
        return E.StrV([E.OpaqueV('formatted')])

    m_str_join = m_str_format
    m_str_strip = m_str_format

    # ---- list
    def m_list_append(self, l, args, kw, node):
        E = self.E()
        k, t = self.elem_of(args[0])
        self.retype(l, k)
        e, s = self.lst(l)
        if k != e:
            raise E.Unsupported('list element of another kind', node)
        T = self.theory(e)
        n = T.LEN(s)
        self.set_seq(l, T.CAT(s, T.unit(t)))
        if self.nested(e):
            self.adopt(args[0], l.id, n)
        return E.NONE

    def m_list_insert(self, l, args, kw, node):
        E = self.E()
        k, t = self.elem_of(args[1])
        self.retype(l, k)
        e, s = self.lst(l)
        if k != e:
            raise E.Unsupported('list element of another kind', node)
        T = self.theory(e)
        n = self.seqlen(e, s)
        i = self.clamp(args[0], n, None, node)
        if self.nested(e):
            def sh(ix):
                if self.implied(ix < i):
                    return ix
                if self.implied(ix >= i):
                    return z3.simplify(ix + 1)
                if self.branch(ix < i):
                    return ix
                return z3.simplify(ix + 1)
            self.shift_handles(l.id, sh)
        self.set_seq(l, T.INS(s, i, t))
        if self.nested(e):
            self.adopt(args[1], l.id, i)
        return E.NONE

    def m_list_extend(self, l, args, kw, node):
        self.list_extend(l, args[0], node)
        return self.E().NONE

    def m_list_pop(self, l, args, kw, node):
        E = self.E()
        e, s = self.lst(l)
        if e is None:
            raise E.PyExc('IndexError')
        n = self.seqlen(e, s)
        i = self.norm_index(args[0].t if args else IntVal(-1), n, node)
        v = self.item_of(l, e, s, i)
        if self.nested(e):
            v = self.new_list(e[1], self.lst(v)[1])
        self.del_at(l, i)
        return v

    def m_list_clear(self, l, args, kw, node):
        E = self.E()
        self.delitem(l, E.SliceV(E.NONE, E.NONE, E.NONE), node)
        return E.NONE

    def m_list_copy(self, l, args, kw, node):
        return self.copy_list(l)

    def m_list_sort(self, l, args, kw, node):
        E = self.E()
        e, s = self.lst(l)
        if e is not None:
            self.set_seq(l, self.sort_seq(e, s, kw, node))
        return E.NONE

    def m_list_reverse(self, l, args, kw, node):
        E = self.E()
        e, s = self.lst(l)
        if e is not None:
            if self.nested(e):
                raise E.Unsupported('reverse of a bucket list', node)
            self.set_seq(l, self.theory(e).rev(s))
        return E.NONE

    def m_list___getitem__(self, l, args, kw, node):
        return self.getitem(l, args[0], node)

    def m_list___setitem__(self, l, args, kw, node):
        self.setitem(l, args[0], args[1], node)
        return self.E().NONE

    def m_list___delitem__(self, l, args, kw, node):
        self.delitem(l, args[0], node)
        return self.E().NONE

    def m_list___len__(self, l, args, kw, node):
        return self.b_len([l], {}, node)

    def m_list___iter__(self, l, args, kw, node):
        return self.b_iter([l], {}, node)

    def m_list___contains__(self, l, args, kw, node):
        return self.contains(l, args[0], node)

    # ---- set
    def sset(self, r):
        return self.heap[r.id].s

    def m_set_add(self, r, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        self.heap[r.id].s = L.sadd(self.sset(r), args[0].t)
        return E.NONE

    def m_set_remove(self, r, args, kw, node):
        E = self.E()
        x = args[0]
        self.hashable(x)
        if self.possible(Not(L.mem(self.sset(r), x.t)), 'KeyError'):
            raise E.PyExc('KeyError')
        self.heap[r.id].s = L.sdel(self.sset(r), x.t)
        return E.NONE

    def m_set_discard(self, r, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        self.heap[r.id].s = L.sdel(self.sset(r), args[0].t)
        return E.NONE

    def m_set_clear(self, r, args, kw, node):
        self.heap[r.id].s = L.semp
        return self.E().NONE

    def m_set_copy(self, r, args, kw, node):
        E = self.E()
        return E.SetRef(self.alloc(E.SetObj(self.sset(r))))

    def m_set___contains__(self, r, args, kw, node):
        return self.contains(r, args[0], node)

    def m_set___len__(self, r, args, kw, node):
        return self.b_len([r], {}, node)

    def set_args(self, s, args, node):
        """list of ('union', set) for each iterable argument"""
        E = self.E()
        out = []
        for a in args:
            if isinstance(a, E.StarArg):
                v = a.v
                if isinstance(v, E.TupleV):
                    out += [self.to_set(x, node) for x in v.items]
                elif isinstance(v, E.VarIters):
                    out.append(v)
                else:
                    raise E.Unsupported('*args', node)
            else:
                out.append(self.to_set(a, node))
        return out

    def set_op(self, kind, s, args, node):
        E = self.E()
        for x in self.set_args(s, args, node):
            if isinstance(x, E.VarIters):
                s = {'union': lambda: L.sunion(s, L.setof(x.seqall)), 'difference': lambda: L.sdiff(s, L.setof(x.seqall)),
                     'intersection': lambda: L.sinter(s, x.inter)}[kind]()
            else:
                s = {'union': L.sunion, 'difference': L.sdiff, 'intersection': L.sinter, 'symmetric_difference': L.ssym}[kind](s, x)
        return s

    def m_set_union(self, r, args, kw, node):
        E = self.E()
        return E.SetRef(self.alloc(E.SetObj(self.set_op('union', self.sset(r), args, node))))

    def m_set_intersection(self, r, args, kw, node):
        E = self.E()
        return E.SetRef(self.alloc(E.SetObj(self.set_op('intersection', self.sset(r), args, node))))

    def m_set_difference(self, r, args, kw, node):
        E = self.E()
        return E.SetRef(self.alloc(E.SetObj(self.set_op('difference', self.sset(r), args, node))))

    def m_set_symmetric_difference(self, r, args, kw, node):
        E = self.E()
        if len(args) != 1:
            raise E.PyExc('TypeError')
        return E.SetRef(self.alloc(E.SetObj(self.set_op('symmetric_difference', self.sset(r), args, node))))

    def _upd(self, kind, r, args, node):
        self.heap[r.id].s = self.set_op(kind, self.sset(r), args, node)
        return self.E().NONE

    def m_set_update(self, r, args, kw, node):
        return self._upd('union', r, args, node)

    def m_set_intersection_update(self, r, args, kw, node):
        return self._upd('intersection', r, args, node)

    def m_set_difference_update(self, r, args, kw, node):
        return self._upd('difference', r, args, node)

    def m_set_symmetric_difference_update(self, r, args, kw, node):
        return self._upd('symmetric_difference', r, args, node)

    def m_set_issubset(self, r, args, kw, node):
        return self.E().BoolV(L.subset(self.sset(r), self.to_set(args[0], node)))

    def m_set_issuperset(self, r, args, kw, node):
        return self.E().BoolV(L.subset(self.to_set(args[0], node), self.sset(r)))

    def m_set_isdisjoint(self, r, args, kw, node):
        return self.E().BoolV(L.subset(L.sinter(self.sset(r), self.to_set(args[0], node)), L.semp))

    # ---- dict (plain dict, or the dict part of an instance)
    def dmap(self, o):
        E = self.E()
        return self.heap[o.id].m if isinstance(o, E.DictRef) else self.heap[o.id].map

    def dset(self, o, m):
        E = self.E()
        ob = self.heap[o.id]
        if isinstance(o, E.DictRef):
            ob.m = m
        else:
            ob.map = m

    def m_dict___setitem__(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        self.dset(o, L.mput(self.dmap(o), args[0].t, self.as_value(args[1])))
        return E.NONE

    def as_value(self, v):
        E = self.E()
        if isinstance(v, E.ElemV):
            return v.t
        if isinstance(v, E.NoneT):
            return NONE_V
        raise E.Unsupported(f'dict value {v!r}')

    def m_dict___getitem__(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        m = self.dmap(o)
        if self.possible(Not(L.mem(L.DOM(m), args[0].t)), 'KeyError'):
            raise E.PyExc('KeyError')
        return E.ElemV(L.val(m, args[0].t))

    def m_dict_get(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        m = self.dmap(o)
        if self.branch(L.mem(L.DOM(m), args[0].t)):
            return E.ElemV(L.val(m, args[0].t))
        return args[1] if len(args) > 1 else E.NONE

    def m_dict___delitem__(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        m = self.dmap(o)
        if self.possible(Not(L.mem(L.DOM(m), args[0].t)), 'KeyError'):
            raise E.PyExc('KeyError')
        self.dset(o, L.mdel(m, args[0].t))
        return E.NONE

    def m_dict_pop(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        m = self.dmap(o)
        if len(args) > 1:
            if not self.branch(L.mem(L.DOM(m), args[0].t)):
                return args[1]
        elif self.possible(Not(L.mem(L.DOM(m), args[0].t)), 'KeyError'):
            raise E.PyExc('KeyError')
        self.dset(o, L.mdel(m, args[0].t))
        return E.ElemV(L.val(m, args[0].t))

    def m_dict_setdefault(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        m = self.dmap(o)
        d = args[1] if len(args) > 1 else E.NONE
        if self.branch(L.mem(L.DOM(m), args[0].t)):
            return E.ElemV(L.val(m, args[0].t))
        self.dset(o, L.mput(m, args[0].t, self.as_value(d)))
        return d

    def m_dict___contains__(self, o, args, kw, node):
        E = self.E()
        self.hashable(args[0])
        return E.BoolV(L.mem(L.DOM(self.dmap(o)), args[0].t))

    def m_dict___len__(self, o, args, kw, node):
        E = self.E()
        c = L.CARD(L.DOM(self.dmap(o)))
        self.assume(c >= 0)
        return E.IntV(c)

    def m_dict___iter__(self, o, args, kw, node):
        E = self.E()
        m = self.dmap(o)
        q = L.SEQOF(L.DOM(m))
        return self.new_iter('V', q, [('dict' if isinstance(o, E.DictRef) else 'map', o.id, m)])

    def m_dict_clear(self, o, args, kw, node):
        self.dset(o, L.memp)
        return self.E().NONE

    def m_dict_copy(self, o, args, kw, node):
        E = self.E()
        return E.DictRef(self.alloc(E.DictObj(self.dmap(o))))

    def m_dict_update(self, o, args, kw, node):
        E = self.E()
        a = []
        for x in args:
            if isinstance(x, E.StarArg):
                raise E.Unsupported('*args', node)
            a.append(x)
        m = self.dict_map(a, kw, node)
        cur = self.dmap(o)
        if m.eq(L.memp):
            return E.NONE
        self.dset(o, L.mmerge(cur, m))
        return E.NONE

    def m_dict___init__(self, o, args, kw, node):
        return self.m_dict_update(o, args, kw, node)

    def m_dict_keys(self, o, args, kw, node):
        return self.m_dict___iter__(o, [], {}, node)

    def m_dict_items(self, o, args, kw, node):
        E = self.E()
        m = self.dmap(o)
        q = L.SEQOF(L.DOM(m))
        return self.new_iter(None, None, [('dict' if isinstance(o, E.DictRef) else 'map', o.id, m)], [('V', q), ('V', L.mvals(m, q))])

    def m_dict_values(self, o, args, kw, node):
        E = self.E()
        m = self.dmap(o)
        q = L.SEQOF(L.DOM(m))
        return self.new_iter('V', L.mvals(m, q), [('dict' if isinstance(o, E.DictRef) else 'map', o.id, m)])

    def m_dict_popitem(self, o, args, kw, node):
        raise self.E().Unsupported('dict.popitem', node)

    def m_dict___new__(self, cls, args, kw, node):
        return self.new_instance(cls)

    # ---- PairsV : an abstract mapping / list of pairs argument
    def m_pairs_items(self, o, args, kw, node):
        return o

    def m_pairs_keys(self, o, args, kw, node):
        return self.new_iter('V', o.ks, [])

    def m_pairs_values(self, o, args, kw, node):
        return self.new_iter('V', o.vs, [])


NONE_V = z3.Const('None_value', L.V)


def E_definitely_ne(a, b):
    try:
        return L.definitely_ne(a, b)
    except Exception:
        return False


def own_nodes(fn):
    """AST nodes of a function without those of nested functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
