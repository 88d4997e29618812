"""Representation predicate of the sorted lists: how the fields encode the
ordered content F, and what must hold of them between operations."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI

PLAIN = ['_len', '_load', '_lists', '_maxes', '_index', '_offset']
KEYED = PLAIN + ['_keys', '_key']
LISTS = ['_lists', '_maxes', '_index', '_keys']
# conjuncts of the representation predicate whose only purpose is the bucket
# size discipline (nothing else depends on them)
ALL_TAGS = ['load', 'shape', 'nonempty', 'sorted', 'maxes', 'keys', 'len', 'index', 'upper', 'lower']


class Rep:
    """The terms of one unfolded sorted list."""

    def __init__(self, eng, ob):
        self.eng = eng
        A = ob.attrs
        self.keyed = '_keys' in A

        def lst(nm, elem):
            v = A[nm]
            if not isinstance(v, eng.E().ListRef):
                raise eng.E().Unsupported(f'{nm} is not a list')
            e, s = eng.lst(v)
            T = eng.theory(elem)
            if e is None:
                return T.emp
            if e != elem:
                raise eng.E().Unsupported(f'{nm} holds another kind of element')
            return s
        self.LL = lst('_lists', 'LV')
        self.MX = lst('_maxes', 'K' if self.keyed else 'V')
        self.KK = lst('_keys', 'LK') if self.keyed else None
        self.IX = lst('_index', 'I')
        self.n = A['_len'].t
        self.load = A['_load'].t
        self.off = A['_offset'].t

        self.sizes = getattr(eng, 'sizes', True)

    def same(self, o):
        return (self.LL.eq(o.LL) and self.MX.eq(o.MX) and self.IX.eq(o.IX) and self.n.eq(o.n) and self.load.eq(o.load)
                and self.off.eq(o.off) and (not self.keyed or self.KK.eq(o.KK)))

    def F(self):
        return L.flat(self.LL)

    def static(self, skip_index=False):
        """(tag, formula) for everything but the positional index."""
        LL, MX = self.LL, self.MX
        n = SSV.LEN(LL)
        i = z3.Int('wi')
        T = SI if self.keyed else SV
        at = SSV.at(LL, i)
        mxord = SI.at(MX, i) if self.keyed else L.ord_(SV.at(MX, i))
        out = [
            ('load', self.load >= 1),
            ('shape', And(T.LEN(MX) == n, *([SSI.LEN(self.KK) == n] if self.keyed else []))),
            ('nonempty', ForAll([i], Implies(And(0 <= i, i < n), SV.len(at) >= 1), patterns=[at])),
            ('sorted', L.sortedV(self.F())),
            ('maxes', ForAll([i], Implies(And(0 <= i, i < n), mxord == L.ord_(SV.at(at, SV.len(at) - 1))), patterns=[at, T.at(MX, i)])),
            ('len', self.n == SV.len(self.F())),
            ('upper', ForAll([i], Implies(And(0 <= i, i < n), SV.len(at) <= 2 * self.load), patterns=[at])),
            ('lower', ForAll([i], Implies(And(0 <= i, i < n - 1), SV.len(at) >= L.hlf(self.load)), patterns=[at])),
        ]
        if not self.sizes:
            out = [x for x in out if x[0] not in ('upper', 'lower')]
        if self.keyed:
            out.append(('keys', ForAll([i], Implies(And(0 <= i, i < n), SSI.at(self.KK, i) == L.mapord(at)), patterns=[at, SSI.at(self.KK, i)])))
        return out

    def index_fact(self):
        return Or(SI.len(self.IX) == 0, L.treeok(self.IX, self.off, self.LL))

    def derived(self):
        """Consequences of the predicate (each proved once, see lemmas.py)."""
        LL, MX = self.LL, self.MX
        k, p = z3.Ints('dk dp')
        F = self.F()
        out = []
        sorted_ = L.sortedI(MX) if self.keyed else L.sortedV(MX)
        out.append(sorted_)
        for (bm, b) in (((L.blI, L.bl), (L.brI, L.br)) if self.keyed else ((L.bl, L.bl), (L.br, L.br))):
            q = bm(MX, k)
            out.append(ForAll([k], And(
                Implies(q < SSV.len(LL), And(b(F, k) == L.P(LL, q) + b(SSV.at(LL, q), k), b(SSV.at(LL, q), k) < SV.len(SSV.at(LL, q)))),
                Implies(q >= SSV.len(LL), b(F, k) == SV.len(F))), patterns=[q]))
        return out


def lemma_obligations():
    """Proof obligations for Rep.derived (both modes)."""
    import z3 as z
    res = []

    class Dummy:
        pass
    for keyed in (False, True):
        r = Rep.__new__(Rep)
        r.keyed = keyed
        r.sizes = False
        r.LL = z.Const('LLx', L.SSVs)
        r.MX = z.Const('MXx', L.SIs if keyed else L.SVs)
        r.KK = z.Const('KKx', L.SSIs) if keyed else None
        r.IX = z.Const('IXx', L.SIs)
        r.n, r.load, r.off = z.Ints('nx loadx offx')
        facts = [f for t, f in r.static() if t not in ('upper', 'lower')]
        srt = r.derived()[0]
        u = r.MX
        T = SI if keyed else SV
        i, j = z.Ints('li lj')
        rank = (lambda e: SI.at(u, e)) if keyed else (lambda e: L.ord_(SV.at(u, e)))
        g = ForAll([i, j], Implies(And(0 <= i, i < j, j < T.len(u)), rank(i) <= rank(j)))
        # instances: the last elements of two buckets, by position in F
        extra = [ForAll([i], Implies(And(0 <= i, i < T.len(u)), And(
            rank(i) == L.ord_(SV.at(r.F(), L.P(r.LL, i) + SV.len(SSV.at(r.LL, i)) - 1)),
            L.P(r.LL, i) + SV.len(SSV.at(r.LL, i)) - 1 >= 0)), patterns=[T.at(u, i)])]
        nm = 'keyed' if keyed else 'plain'
        res.append((f'lemma maxes locate buckets ({nm}): position of a maximum', facts, extra[0]))
        res.append((f'lemma maxes are sorted ({nm})', facts + extra, g))
        for q, d in enumerate(r.derived()[1:]):
            res.append((f'lemma bucket search {"left" if q == 0 else "right"} ({nm})', facts + extra + [srt], d))
    return res


class RepMixin:
    def is_sl(self, ob):
        return any(getattr(c, 'name', '') == 'SortedList' and isinstance(c, self.E().ClassV) for c in ob.cls.mro())

    def is_keyed(self, ob):
        return any(getattr(c, 'name', '') == 'SortedKeyList' and isinstance(c, self.E().ClassV) for c in ob.cls.mro())

    def new_folded(self, cls, F, load=None, key=None):
        """A sorted list holding F, nothing else known."""
        E = self.E()
        ob = E.InstObj(cls)
        ob.folded = True
        ob.F = F
        self.assume(L.sortedV(F))
        ob.fold_load = load if load is not None else self.fresh_int('load')
        self.assume(ob.fold_load >= 1)
        ob.meta['key'] = key if key is not None else E.KeyFuncV()
        return E.ObjRef(self.alloc(ob))

    def unfold(self, ref, why=None):
        E = self.E()
        ob = self.heap[ref.id]
        if not ob.folded:
            return
        self.check_fields(ob.cls)
        keyed = self.is_keyed(ob)
        fr = self.fresh
        LL = fr('LL', L.SSVs)
        A = ob.attrs
        A['_lists'] = self.new_list('LV', LL)
        A['_maxes'] = self.new_list('K' if keyed else 'V', fr('MX', L.SIs if keyed else L.SVs))
        A['_index'] = self.new_list('I', fr('IX', L.SIs))
        if keyed:
            A['_keys'] = self.new_list('LK', fr('KK', L.SSIs))
            A['_key'] = ob.meta['key']
        A['_len'] = E.IntV(self.fresh_int('len'))
        A['_load'] = E.IntV(ob.fold_load)
        A['_offset'] = E.IntV(self.fresh_int('off'))
        ob.folded = False
        r = Rep(self, ob)
        self.assume(L.flat(LL) == ob.F)
        self.assume(L.isbase(LL))
        for t, f in r.static():
            self.assume(f)
        self.assume(r.index_fact())
        for f in r.derived():
            self.assume(f)
        # a few ground facts that path pruning uses
        self.assume(And(SSV.len(LL) >= 0, r.n >= 0, r.n == SV.len(ob.F), (SSV.len(LL) == 0) == (r.n == 0), r.n >= SSV.len(LL)))
        ob.meta['clean'] = LL
        ob.meta['rep'] = r
        ob.meta['ids'] = {a: A[a].id for a in LISTS if a in A}

    def is_clean(self, ob):
        r0 = ob.meta.get('rep')
        if r0 is None:
            return False
        try:
            r = Rep(self, ob)
        except Exception:
            return False
        return r.same(r0)

    def check_fields(self, cls):
        """The constructor must create exactly the fields we describe."""
        E = self.E()
        ok = self.__dict__.setdefault('_fields_ok', {})
        key = cls.name
        if key not in ok:
            init = cls.lookup('__init__')
            names = set()
            import ast
            stack = [init.node]
            for n in ast.walk(init.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == init.node.args.args[0].arg:
                    names.add(n.attr)
            want = set(KEYED if self.is_keyed_cls(cls) else PLAIN)
            ok[key] = names <= want
        if not ok[key]:
            raise E.Unsupported('the constructor creates fields outside the described representation')

    def is_keyed_cls(self, cls):
        return any(getattr(c, 'name', '') == 'SortedKeyList' for c in cls.mro())

    def wf_obligations(self, ob, why):
        """Prove the representation predicate of an unfolded object."""
        E = self.E()
        r = Rep(self, ob)
        r0 = ob.meta.get('rep')
        for t, f in r.static():
            if t == 'sorted':
                self.oblige(f'{why}: elements in order', L.sortedV_def(r.F()), ('wf', 'sorted'), assume=False)
                self.assume(f)
                continue
            if t == 'load' and r0 is not None and r.load.eq(r0.load):
                continue
            self.oblige(f'{why}: {t}', f, ('wf', t))
        if r.IX.eq(SI.emp):
            pass
        elif r0 is not None and r.IX.eq(r0.IX) and r.off.eq(r0.off) and r.LL.eq(r0.LL):
            pass
        elif self.branch(SI.len(r.IX) == 0):
            pass
        elif any(f.eq(r.index_fact()) or f.eq(L.treeok(r.IX, r.off, r.LL)) for f in self.facts):
            self.oblige(f'{why}: positional index', L.treeok(r.IX, r.off, r.LL), ('wf', 'index'))
        else:
            for nm, f in L.tree_components(r.IX, r.off, r.LL):
                self.oblige(f'{why}: positional index {nm}', f, ('wf', 'index'))
            self.assume(L.treeok(r.IX, r.off, r.LL))
        ks = ob.attrs.get('_key')
        if r.keyed and not isinstance(ks, E.KeyFuncV):
            self.oblige(f'{why}: key function kept', BoolVal(False), ('wf', 'keys'))
        return r

    def fold_obj(self, ref, why):
        E = self.E()
        ob = self.heap[ref.id]
        if ob.folded or not self.is_sl(ob):
            return
        extra = set(ob.attrs) - set(KEYED)
        if extra:
            raise E.Unsupported(f'field {sorted(extra)} outside the described representation')
        missing = [a for a in (KEYED if self.is_keyed(ob) else PLAIN) if a not in ob.attrs]
        if missing:
            raise E.Unsupported(f'field {missing} missing')
        if self.is_clean(ob):
            F = ob.F
        else:
            r = self.wf_obligations(ob, why)
            F = r.F()
        ob.fold_load = ob.attrs['_load'].t
        if '_key' in ob.attrs:
            ob.meta['key'] = ob.attrs['_key']
        for a in LISTS:
            if a in ob.attrs:
                lid = ob.attrs[a].id
                self.poison_handles(lid)
                self.heap[lid] = E.Poison('a list held across a call that may change it')
        ob.attrs = {}
        ob.F = F
        ob.folded = True
        ob.meta.pop('rep', None)
        ob.meta.pop('clean', None)
        ob.meta.pop('ids', None)
