"""Sorted sets and sorted dicts against built-in sets and dicts."""
import copy
import operator
import pickle
from collections.abc import ItemsView, Mapping, Set
from core import (Want, Mismatch, Skip, Stop, NOTHING, call, exc_name, show, need, is_sorted, eq_multiset, coherent, Env)
from values import V, Fuse, KEYS, Once, Map, KW, same, same_seq, rank
from seqrun import SeqGen

OPS2 = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub, 'xor': operator.xor}
IOPS = {'ior': operator.ior, 'iand': operator.iand, 'isub': operator.isub, 'ixor': operator.ixor}
CMPS = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}

SET_FAMILY = {
    'add': 'mut', 'discard': 'mut', 'remove': 'mut', 'pop': 'mut', 'clear': 'mut', 'del': 'mut',
    'update': 'mut', 'difference_update': 'mut', 'intersection_update': 'mut', 'symmetric_difference_update': 'mut',
    'ior': 'mut', 'iand': 'mut', 'isub': 'mut', 'ixor': 'mut', 'reset': 'mut',
    'get': 'seq', 'index': 'seq', 'count': 'seq', 'contains': 'seq', 'iter': 'seq', 'reversed': 'seq', 'len': 'seq', 'bisect': 'seq',
    'union': 'alg', 'intersection': 'alg', 'difference': 'alg', 'symmetric_difference': 'alg', 'or': 'alg', 'and': 'alg', 'sub': 'alg', 'xor': 'alg',
    'ror': 'alg', 'rand': 'alg', 'rxor': 'alg', 'rsub': 'alg',
    'cmp': 'alg', 'isdisjoint': 'alg', 'issubset': 'alg', 'issuperset': 'alg',
    'copy': 'derive', '__copy__': 'derive', 'pickle': 'derive', 'reduce': 'derive', 'construct': 'derive',
}
DICT_FAMILY = {
    'setitem': 'mut', 'delitem': 'mut', 'setdefault': 'mut', 'pop': 'mut', 'popitem': 'mut', 'clear': 'mut', 'update': 'mut', 'ior': 'mut', 'reset': 'mut',
    'delkeys': 'mut', 'delitems': 'mut', 'delvalues': 'mut',
    'peekitem': 'pos', 'keys': 'pos', 'items': 'pos', 'values': 'pos', 'kindex': 'pos', 'vcount': 'pos', 'vindex': 'pos', 'iindex': 'pos', 'views': 'pos', 'dindex': 'pos',
    'get': 'map', 'contains': 'map', 'iter': 'map', 'reversed': 'map', 'len': 'map',
    'copy': 'derive', '__copy__': 'derive', 'pickle': 'derive', 'reduce': 'derive', 'or': 'derive', 'ror': 'derive', 'fromkeys': 'derive', 'construct': 'derive',
}
SET_MUT = ['add', 'add', 'add', 'discard', 'remove', 'pop', 'update', 'del', 'ior', 'isub', 'ixor', 'difference_update']
DICT_MUT = ['setitem', 'setitem', 'setitem', 'delitem', 'setdefault', 'pop', 'popitem', 'update', 'ior', 'delkeys']
INPLACE = {'update': 'or', 'difference_update': 'sub', 'intersection_update': 'and', 'symmetric_difference_update': 'xor', 'ior': 'or', 'iand': 'and', 'isub': 'sub', 'ixor': 'xor'}
PROPS_SET = {
    'C13': list(SET_MUT) + ['clear', 'intersection_update', 'symmetric_difference_update', 'iand', 'get', 'index', 'count', 'contains', 'iter', 'reversed', 'bisect', 'reset'],
    'C14': [o for o, f in SET_FAMILY.items() if f == 'alg'] * 2 + list(INPLACE),
    'C15': ['copy', '__copy__', 'pickle', 'reduce', 'construct'],
    'C16': ['remove', 'pop', 'del', 'get', 'index', 'add', 'discard'],
}
PROPS_DICT = {
    'C11': list(DICT_MUT) + ['clear', 'get', 'contains', 'iter', 'reversed', 'delitems', 'delvalues', 'reset'],
    'C12': ['peekitem', 'popitem', 'keys', 'items', 'values', 'kindex', 'vcount', 'vindex', 'iindex', 'views', 'delkeys', 'delitems', 'delvalues', 'dindex'],
    'C15': ['copy', '__copy__', 'pickle', 'reduce', 'or', 'ror', 'fromkeys', 'construct'],
    'C16': ['delitem', 'pop', 'popitem', 'peekitem', 'get', 'keys', 'delkeys', 'setitem', 'setdefault'],
}


def mset(it):
    return set(it)


def probes(env, L):
    rs = sorted({int(rank(v)) if not isinstance(v, Fuse) else 0 for v in L})
    return rs


class Base:
    def val_eq(self, a, b):
        return a == b


# ------------------------------------------------------------------- sets
class SetRun:
    def __init__(self, prog, prop, mods):
        self.prog, self.prop, self.mods = prog, prop, mods
        self.env = Env(prog['universe'])
        self.kf = KEYS[prog['key']]
        self.cls = mods['sortedset'].SortedSet
        self.SL = mods['sortedlist'].SortedList
        init = self.env.dec(prog['init'])
        self.args = (init,) if (init or prog.get('explicit')) else ()
        x, e = call(self.make, *self.args)
        need(e is None, f'construction from {show(init)} raised {show(e)}')
        self.x = x
        if prog['load']:
            _, e = call(x._reset, prog['load'])
            need(e is None, f'changing the load factor raised {show(e)}')
        if prop in ('C13', None):
            self.agree(x, set(init), 'construction')

    def make(self, *a):
        return self.cls(*a, key=self.kf) if self.kf else self.cls(*a)

    def agree(self, x, S, why, kf=NOTHING):
        """x shows exactly the set S, sorted, with membership to match."""
        kf = self.kf if kf is NOTHING else kf
        L, e = call(list, x)
        need(e is None, f'{why}: iterating raised {show(e)}')
        need(is_sorted(L, kf), f'{why}: not in order: {show(L)}')
        need(len(L) == len(S) and set(L) == S, f'{why}: contents {show(L)}, expected the set {show(S)}')
        need(len(x) == len(S), f'{why}: len() is {len(x)}, expected {len(S)}')
        for v in L:
            need(v in x, f'{why}: {show(v)} is iterated over but not contained')
        for v in self.outside(S):
            need((v in x) is (v in S), f'{why}: membership of {show(v)} is {v in x}')
        R, e = call(lambda: list(reversed(x)))
        need(e is None and same_seq(R, L[::-1]), f'{why}: reversed iteration gives {show(R)}')
        # methods handed through to the inner containers
        self.exposed(x, L, why)
        for f, w in ((x.issubset, True), (x.issuperset, True), (x.isdisjoint, not S)):
            r, e = call(f, S)
            need(e is None and r is w, f'{why}: {f.__name__}(the same set) gives {show(r)} {show(e)}')

    def exposed(self, x, L, why):
        R, e = call(lambda: list(x.islice()))
        need(e is None and same_seq(R, L), f'{why}: islice() gives {show(R)}')
        R, e = call(lambda: list(x.irange(reverse=True)))
        need(e is None and same_seq(R, L[::-1]), f'{why}: irange(reverse=True) gives {show(R)}')
        if L:
            r, e = call(lambda: x.index(L[-1]))
            need(e is None and r == len(L) - 1, f'{why}: index({show(L[-1])}) gives {show(r)}')

    def outside(self, S):
        return [self.env.val(r, 0) for r in range(min(self.prog.get('span', [0, 3])), max(self.prog.get('span', [0, 3])) + 1)][:40]

    def step(self, op):
        name, raw = op[0], op[1:]
        x = self.x
        L, e = call(list, x)
        if e is not None:
            raise Mismatch(f'iterating raised {show(e)}')
        if len(L) > 25000:
            raise Stop()
        S = set(L)
        args = [self.dec(a, x) for a in raw]
        why = f'{name}({", ".join(show(a) for a in args)}) on {show(L)}'
        fam = SET_FAMILY[name]
        fuse = next((a for a in args if isinstance(a, Fuse)), None)
        if fuse is not None:
            return self.fused(name, args, L, why)
        if name in ('cmp', 'isdisjoint', 'issubset', 'issuperset') or fam in ('derive', 'alg'):
            if self.prop == ('C15' if fam == 'derive' else 'C14') or self.prop is None:
                getattr(self, 'x_derive' if fam == 'derive' else 'x_alg')(name, args, L, S, why)
            return
        if fam == 'seq':
            if self.prop in ('C13', None):
                self.x_seq(name, args, L, S, why)
            elif self.prop == 'C16':
                w, e = call(self.seq_ref, name, args, L)
                if e is not None:
                    r, g = call(self.seq_real, name, args)
                    need(g is not None and isinstance(g, type(e)), f'{why} gave {show(r)} {show(g)}, expected {type(e).__name__}')
                    self.same_state(L, why)
            return
        # mutators
        want, wret, wexc = self.mut_ref(name, args, L, S)
        operands = [(o, set(o)) for o in args if isinstance(o, (set, frozenset)) and o is not x] + \
                   [(o, list(o)) for o in args if isinstance(o, self.cls) and o is not x]
        ret, exc = call(self.mut_real, name, args)
        if self.prop in ('C14', None) and name in INPLACE:
            need(exc is None, f'{why} raised {show(exc)}')
            if wret is x:
                need(ret is x, f'{why} returned another object')
            self.agree(x, want, f'after {why}')
            for o, s in operands:
                need((set(o) == s) if isinstance(o, (set, frozenset)) else same_seq(list(o), s), f'{why} changed its operand to {show(o)}')
            need(x.key is self.kf, f'{why}: key changed')
            self.boundok(x, want, f'after {why}')
        if self.prop in ('C13', None):
            if wexc is not None:
                need(exc is not None and isinstance(exc, wexc), f'{why} gave {show(ret)} {show(exc)}, expected {wexc.__name__}')
            else:
                need(exc is None, f'{why} raised {show(exc)}')
                if wret is not NOTHING and wret is not x:
                    need(same(ret, wret), f'{why} gave {show(ret)}, expected {show(wret)}')
            self.agree(x, want, f'after {why}')
            self.after_seq(L, why)
        elif self.prop == 'C16' and wexc is not None:
            need(exc is not None and isinstance(exc, wexc), f'{why} gave {show(ret)} {show(exc)}, expected {wexc.__name__}')
            self.same_state(L, why)
        if self.prop is None:
            coherent(x._list, self.kf, f'after {why}')

    def after_seq(self, L0, why):
        x = self.x
        L = list(x)
        for i in {0, len(L) // 2, len(L) - 1} if L else ():
            need(same(x[i], L[i]) and same(x[i - len(L)], L[i]), f'after {why}: position {i} holds {show(x[i])}')
            need(x.index(L[i]) == i, f'after {why}: index({show(L[i])}) is {x.index(L[i])}')
        _, e = call(lambda: x[len(L)])
        need(isinstance(e, IndexError), f'after {why}: position {len(L)} exists')

    def boundok(self, x, S, why):
        """Methods that were bound at construction still see the contents."""
        need(x.issubset(S) and x.issuperset(S), f'{why}: subset tests do not see the contents')
        if S:
            need(not x.isdisjoint(S), f'{why}: disjointness does not see the contents')

    def same_state(self, L, why):
        x = self.x
        got, e = call(list, x)
        need(e is None and same_seq(got, L), f'{why}: afterwards contents {show(got)}')
        self.agree(x, set(L), f'after {why}')
        if hasattr(x, '_list'):
            coherent(x._list, self.kf, f'after {why}')

    def fused(self, name, args, L, why):
        if self.prop not in ('C16', None):
            return
        if name in SET_FAMILY and SET_FAMILY[name] == 'mut':
            ret, exc = call(self.mut_real, name, args)
        else:
            ret, exc = call(self.seq_real, name, args)
        for a in args:
            if isinstance(a, Fuse):
                a.n = 10 ** 9
        if exc is not None:
            got, e = call(list, self.x)
            need(e is None and same_seq(got, L), f'{why} raised {exc_name(exc)}; afterwards contents {show(got)}')
            need(len(self.x) == len(L), f'{why} raised {exc_name(exc)}; afterwards len() is {len(self.x)}')
            for a in args:
                if isinstance(a, Fuse):
                    need(a not in self.x, f'{why} raised {exc_name(exc)}; afterwards the value is contained')
            self.same_state(L, f'{why} raised {exc_name(exc)}')
        elif any(isinstance(v, Fuse) for v in list(self.x)):
            raise Stop()

    def dec(self, a, x):
        if isinstance(a, list) and a and a[0] == 'SS':
            vals = [self.env.dec(v) for v in a[2:]]
            return self.cls(vals, key=KEYS[a[1]])
        return self.env.dec(a, x)

    # ---- mutators
    def mut_real(self, name, args):
        x = self.x
        if name == 'del':
            del x[args[0]]
            return None
        if name == 'reset':
            return x._reset(args[0])
        if name in IOPS:
            return IOPS[name](x, args[0])
        return getattr(x, name)(*args)

    def mut_ref(self, name, args, L, S):
        x = self.x
        if name == 'add':
            return S | {args[0]}, None, None
        if name == 'discard':
            return S - {args[0]}, None, None
        if name == 'remove':
            return (S - {args[0]}, None, None) if args[0] in S else (S, NOTHING, KeyError)
        if name == 'clear':
            return set(), None, None
        if name == 'reset':
            return S, None, None
        if name == 'pop':
            M = list(L)
            r, e = call(M.pop, *args)
            return (S, NOTHING, IndexError) if e else (set(M), r, None)
        if name == 'del':
            M = list(L)
            _, e = call(operator.delitem, M, args[0])
            return (S, NOTHING, type(e)) if e else (set(M), None, None)
        if name in INPLACE:
            r = set(S)
            kind = INPLACE[name]
            ops = [set(L) if a is x else self.peek(a) for a in args]
            if kind == 'or':
                r = r.union(*ops)
            elif kind == 'and':
                r = r.intersection(*ops)
            elif kind == 'sub':
                r = r.difference(*ops)
            else:
                r = r ^ ops[0]
            return r, x, None
        raise KeyError(name)

    def peek(self, a):
        if isinstance(a, (list, tuple, set, frozenset, dict, self.cls)):
            return set(a)
        if isinstance(a, Once):
            return set(a.xs)
        if isinstance(a, type({}.keys())):
            return set(a)
        raise Skip()

    # ---- sequence reads
    def seq_real(self, name, args):
        x = self.x
        return {'get': lambda: x[args[0]], 'index': lambda: x.index(*args), 'count': lambda: x.count(args[0]), 'contains': lambda: args[0] in x,
                'iter': lambda: list(x), 'reversed': lambda: list(reversed(x)), 'len': lambda: len(x), 'bisect': lambda: x.bisect(args[0])}[name]()

    def seq_ref(self, name, args, L):
        kf = self.kf or (lambda v: v)
        if name == 'get':
            return L[args[0]]
        if name == 'index':
            return L.index(*[(0 if j == 1 else len(L)) if y is None else y for j, y in enumerate(args)])
        return {'count': lambda: L.count(args[0]), 'contains': lambda: args[0] in L, 'iter': lambda: L, 'reversed': lambda: L[::-1], 'len': lambda: len(L),
                'bisect': lambda: sum(1 for v in L if not kf(args[0]) < kf(v))}[name]()

    def x_seq(self, name, args, L, S, why):
        w, e = call(self.seq_ref, name, args, L)
        r, g = call(self.seq_real, name, args)
        if e is not None:
            need(g is not None and isinstance(g, type(e)), f'{why} gave {show(r)} {show(g)}, expected {type(e).__name__}')
        else:
            need(g is None, f'{why} raised {show(g)}')
            need(same(r, w), f'{why} gave {show(r)}, expected {show(w)}')
        need(same_seq(list(self.x), L), f'{why} changed the contents')

    # ---- algebra and comparisons
    def x_alg(self, name, args, L, S, why):
        x = self.x
        cls = self.cls
        ops = [set(L) if a is x else self.peek(a) if not isinstance(a, (int, type(None), str)) else None for a in args if name != 'cmp'] if name != 'cmp' else []
        snap = [(o, set(o)) for o in args if isinstance(o, (set, frozenset))] + [(o, list(o)) for o in args if isinstance(o, (list, tuple)) or (isinstance(o, cls) and o is not x)]
        if name == 'cmp':
            f, o = CMPS[args[0]], args[1]
            r, e = call(f, x, o)
            if isinstance(o, (set, frozenset, cls)):
                w = f(S, set(o))
                need(e is None and r is w, f'{why} gave {show(r)} {show(e)}, expected {w}')
            elif args[0] in ('eq', 'ne'):
                need(e is None and r is (args[0] == 'ne'), f'{why} gave {show(r)} {show(e)}')
            else:
                need(isinstance(e, TypeError), f'{why} gave {show(r)} {show(e)}, expected TypeError')
        elif name in ('isdisjoint', 'issubset', 'issuperset'):
            w = getattr(S, name)(ops[0])
            r, e = call(getattr(x, name), args[0])
            need(e is None and r is w, f'{why} gave {show(r)} {show(e)}, expected {w}')
        else:
            kind = {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor', 'ror': 'or', 'rand': 'and', 'rxor': 'xor', 'rsub': 'rsub'}.get(name, name)
            if kind == 'or':
                want = S.union(*ops)
            elif kind == 'and':
                want = S.intersection(*ops)
            elif kind == 'sub':
                want = S.difference(*ops)
            elif kind == 'xor':
                want = S ^ ops[0]
            else:
                want = ops[0] - S
            if name in OPS2:
                r, e = call(OPS2[name], x, args[0])
            elif name in ('ror', 'rand', 'rxor', 'rsub'):
                r, e = call(OPS2[name[1:]], args[0], x)
                if e is not None and not isinstance(args[0], (set, frozenset, cls)):
                    raise Skip()
            else:
                r, e = call(getattr(x, name), *args)
            need(e is None, f'{why} raised {show(e)}')
            if name == 'rsub' or name[0] == 'r':
                # the result type and key of reflected operators are the left operand's business
                need(set(r) == want and len(r) == len(want), f'{why} gave {show(r)}, expected {show(want)}')
            else:
                need(type(r) is cls, f'{why} gave a {type(r).__name__}')
                need(r is not x, f'{why} returned the set itself')
                need(r.key is self.kf, f'{why}: key is {show(r.key)}')
                self.agree(r, want, f'result of {why}')
                coherent(r._list, self.kf, f'result of {why}')
                # independent of the operands
                extra = self.env.val(10 ** 6, 0)
                r.add(extra)
                if len(r) > 1:
                    r.pop(0)
                self.agree(r, set(r._set), f'changed result of {why}')
                need(same_seq(list(x), L) and extra not in x, f'{why}: changing the result changed the set')
                self.agree(x, S, f'{why}: after changing the result')
        for o, s in snap:
            got = set(o) if isinstance(s, set) else list(o)
            need(got == s if isinstance(s, set) else same_seq(got, s), f'{why} changed its operand to {show(o)}')
        need(same_seq(list(x), L), f'{why} changed the set to {show(list(x))}')
        self.agree(x, S, f'after {why}')

    # ---- derivation
    def x_derive(self, name, args, L, S, why):
        x = self.x
        mk = {'copy': lambda: x.copy(), '__copy__': lambda: copy.copy(x), 'pickle': lambda: pickle.loads(pickle.dumps(x)),
              'reduce': lambda: (lambda r: r[0](*r[1]))(x.__reduce__()), 'construct': lambda: self.cls(x, key=x.key)}[name]
        y, e = call(mk)
        need(e is None, f'{why} raised {show(e)}')
        need(type(y) is self.cls and y is not x, f'{why} gave {show(y)}')
        need(y.key is self.kf, f'{why}: key is {show(y.key)}')
        self.agree(y, S, f'result of {why}')
        coherent(y._list, self.kf, f'result of {why}')
        extra = self.env.val(10 ** 6, 0)
        y.add(extra)
        if len(y) > 1:
            y.pop(0)
        self.agree(y, set(y), f'changed result of {why}')
        need(same_seq(list(x), L), f'{why}: changing the result changed the set')
        self.agree(x, S, f'{why}: after changing the result')
        self.boundok(x, S, f'{why}: after changing the result')
        y = mk()
        x.add(extra)
        x.discard(L[0] if L else extra)
        self.agree(y, S, f'{why}: after changing the original')
        self.boundok(y, S, f'{why}: after changing the original')
        x.discard(extra)
        if L:
            x.add(L[0])


# ------------------------------------------------------------------ dicts
class DictRun:
    def __init__(self, prog, prop, mods):
        self.prog, self.prop, self.mods = prog, prop, mods
        self.env = Env(prog['universe'])
        self.kf = KEYS[prog['key']]
        self.cls = mods['sorteddict'].SortedDict
        init = self.env.dec(prog['init'])
        how = prog.get('how', 0)
        kws = {}
        if prog['universe'] == 'str' and how == 3:
            cut = len(init) // 2
            kws, init = dict(init[cut:]), init[:cut]
        arg = init if how in (0, 3) else dict(init) if how == 1 else iter(init)
        pre = (self.kf,) if self.kf or prog.get('explicit') else ()
        x, e = call(self.cls, *pre, arg, **kws) if init or how else call(self.cls, *pre)
        init = init + list(kws.items())
        need(e is None, f'construction raised {show(e)}')
        self.x = x
        if prog['load']:
            _, e = call(x._reset, prog['load'])
            need(e is None, f'changing the load factor raised {show(e)}')
        if prop in ('C11', None):
            self.agree(x, dict(init), 'construction')

    def agree(self, x, M, why, kf=NOTHING):
        kf = self.kf if kf is NOTHING else kf
        L, e = call(list, x)
        need(e is None, f'{why}: iterating raised {show(e)}')
        need(is_sorted(L, kf), f'{why}: keys not in order: {show(L)}')
        need(len(L) == len(M) and set(L) == set(M), f'{why}: keys {show(L)}, expected {show(list(M))}')
        need(len(x) == len(M), f'{why}: len() is {len(x)}, expected {len(M)}')
        for k in L:
            v, e = call(lambda: x[k])
            need(e is None and same(v, M[k]), f'{why}: x[{show(k)}] is {show(v)} {show(e)}, expected {show(M[k])}')
        R, e = call(lambda: list(reversed(x)))
        need(e is None and same_seq(R, L[::-1]), f'{why}: reversed iteration gives {show(R)}')
        SetRun.exposed(self, x, L, why)
        need(same_seq(sorted(map(repr, dict.keys(x))), sorted(map(repr, L))), f'{why}: mapping has keys {show(list(dict.keys(x)))}, iteration {show(L)}')

    def same_state(self, L, M, why):
        got, e = call(list, self.x)
        need(e is None and same_seq(got, L), f'{why}: afterwards keys {show(got)}')
        self.agree(self.x, M, f'after {why}')
        if hasattr(self.x, '_list'):
            coherent(self.x._list, self.kf, f'after {why}')

    def step(self, op):
        name, raw = op[0], op[1:]
        x = self.x
        L, e = call(list, x)
        if e is not None:
            raise Mismatch(f'iterating raised {show(e)}')
        if len(L) > 25000:
            raise Stop()
        M, e = call(lambda: {k: dict.__getitem__(x, k) for k in L})
        if e is not None:
            if self.prop in ('C11', None):
                raise Mismatch(f'reading the items raised {show(e)}')
            raise Stop()
        args = [self.dec(a, x) for a in raw]
        why = f'{name}({", ".join(show(a) for a in args)}) on {show(dict(M))}'
        fam = DICT_FAMILY[name]
        if any(isinstance(a, Fuse) for a in args):
            return self.fused(name, args, L, M, why)
        if fam == 'derive':
            if self.prop in ('C15', None):
                self.x_derive(name, args, L, M, why)
            return
        if fam in ('pos', 'map'):
            if self.prop == ('C12' if fam == 'pos' else 'C11') or self.prop is None:
                w, e = call(self.ref, name, args, L, M)
                r, g = call(self.real, name, args)
                if e is not None:
                    need(g is not None and isinstance(g, type(e)), f'{why} gave {show(r)} {show(g)}, expected {type(e).__name__}')
                else:
                    need(g is None, f'{why} raised {show(g)}')
                    need(same(r, w), f'{why} gave {show(r)}, expected {show(w)}')
                self.same_state(L, M, why)
            elif self.prop == 'C16':
                w, e = call(self.ref, name, args, L, M)
                if e is not None:
                    r, g = call(self.real, name, args)
                    need(g is not None and isinstance(g, type(e)), f'{why} gave {show(r)} {show(g)}, expected {type(e).__name__}')
                    self.same_state(L, M, why)
            return
        want, wret, wexc = self.mut_ref(name, args, L, M)
        snap = [(o, dict(o)) for o in args if isinstance(o, dict) and o is not x]
        ret, exc = call(self.real, name, args)
        positional = name in ('popitem', 'delkeys', 'delitems', 'delvalues')
        if self.prop in ('C11', None) or (self.prop == 'C12' and positional):
            if wexc is not None:
                need(exc is not None and isinstance(exc, wexc), f'{why} gave {show(ret)} {show(exc)}, expected {wexc.__name__}')
            else:
                need(exc is None, f'{why} raised {show(exc)}')
                if wret is not NOTHING:
                    need(same(ret, wret) if wret is not x else ret is x, f'{why} gave {show(ret)}, expected {show(wret)}')
            self.agree(x, want, f'after {why}')
            for o, s in snap:
                need(dict(o) == s, f'{why} changed its argument')
        elif self.prop == 'C16' and wexc is not None:
            need(exc is not None and isinstance(exc, wexc), f'{why} gave {show(ret)} {show(exc)}, expected {wexc.__name__}')
            self.same_state(L, M, why)
        if self.prop is None:
            coherent(x._list, self.kf, f'after {why}')

    def fused(self, name, args, L, M, why):
        if self.prop not in ('C16', None):
            return
        ret, exc = call(self.real, name, args)
        for a in args:
            if isinstance(a, Fuse):
                a.n = 10 ** 9
        if exc is not None:
            got, e = call(list, self.x)
            need(e is None and same_seq(got, L), f'{why} raised {exc_name(exc)}; afterwards keys {show(got)}')
            need(len(self.x) == len(L), f'{why} raised {exc_name(exc)}; afterwards len() is {len(self.x)}')
            for a in args:
                if isinstance(a, Fuse):
                    need(a not in self.x, f'{why} raised {exc_name(exc)}; afterwards the key is contained')
            self.same_state(L, M, f'{why} raised {exc_name(exc)}')
        elif any(isinstance(v, Fuse) for v in list(self.x)):
            raise Stop()

    def dec(self, a, x):
        if isinstance(a, list) and a and a[0] == 'SD':
            return self.cls(KEYS[a[1]], [(self.env.dec(k), self.env.dec(v)) for k, v in a[2:]])
        return self.env.dec(a, x)

    def real(self, name, args):
        x = self.x
        a = args
        if name == 'setitem':
            x[a[0]] = a[1]
            return None
        if name == 'delitem':
            del x[a[0]]
            return None
        if name in ('delkeys', 'delitems', 'delvalues'):
            v = getattr(x, name[3:])()
            del v[a[0]]
            return None
        if name == 'ior':
            y = operator.ior(x, a[0])
            return y
        if name == 'reset':
            return x._reset(a[0])
        if name == 'update' and a and isinstance(a[-1], KW):
            return x.update(*a[:-1], **a[-1])
        if name in ('setdefault', 'pop', 'popitem', 'peekitem', 'clear', 'update'):
            return getattr(x, name)(*a)
        return {'get': lambda: x[a[0]], 'contains': lambda: a[0] in x, 'iter': lambda: list(x), 'reversed': lambda: list(reversed(x)), 'len': lambda: len(x),
                'keys': lambda: x.keys()[a[0]], 'items': lambda: x.items()[a[0]], 'values': lambda: x.values()[a[0]],
                'kindex': lambda: x.keys().index(a[0]), 'vcount': lambda: x.values().count(a[0]), 'vindex': lambda: x.values().index(a[0]),
                'iindex': lambda: x.items().index((a[0], a[1])), 'dindex': lambda: x.index(*a),
                'views': lambda: (list(x.keys()), list(x.items()), list(x.values()), list(reversed(x.keys())), list(reversed(x.items())), list(reversed(x.values())),
                                  len(x.keys()), len(x.items()), len(x.values()))}[name]()

    def ref(self, name, args, L, M):
        a = args
        its = [(k, M[k]) for k in L]
        vs = [M[k] for k in L]

        def seq_index(xs, v):
            return xs.index(v)
        return {'get': lambda: M[a[0]], 'contains': lambda: a[0] in M, 'iter': lambda: L, 'reversed': lambda: L[::-1], 'len': lambda: len(L),
                'peekitem': lambda: its[a[0] if a else -1], 'keys': lambda: L[a[0]], 'items': lambda: its[a[0]], 'values': lambda: vs[a[0]],
                'kindex': lambda: L.index(a[0]), 'vcount': lambda: vs.count(a[0]), 'vindex': lambda: vs.index(a[0]), 'iindex': lambda: its.index((a[0], a[1])),
                'dindex': lambda: L.index(*[(0 if j == 1 else len(L)) if y is None else y for j, y in enumerate(a)]),
                'views': lambda: (L, its, vs, L[::-1], its[::-1], vs[::-1], len(L), len(L), len(L))}[name]()

    def mut_ref(self, name, args, L, M):
        x, a = self.x, args
        W = dict(M)
        if name == 'setitem':
            W[a[0]] = a[1]
            return W, None, None
        if name == 'delitem':
            if a[0] not in M:
                return M, NOTHING, KeyError
            del W[a[0]]
            return W, None, None
        if name == 'setdefault':
            r = W.setdefault(*a)
            return W, r, None
        if name == 'pop':
            if a[0] not in W:
                return (M, NOTHING, KeyError) if len(a) == 1 else (M, a[1], None)
            r = W.pop(a[0])
            return W, r, None
        if name == 'popitem':
            if not L:
                return M, NOTHING, KeyError
            K = list(L)
            k, e = call(K.pop, *(a or [-1]))
            if e:
                return M, NOTHING, IndexError
            return W, (k, W.pop(k)), None
        if name == 'clear':
            return {}, None, None
        if name == 'reset':
            return M, None, None
        if name in ('update', 'ior'):
            for o in a:
                if isinstance(o, Once):
                    o = o.xs
                elif isinstance(o, ItemsView):
                    continue
                elif not isinstance(o, (dict, list, tuple, Map)):
                    raise Skip()
                W.update(dict(M) if o is x else o)
            return W, (x if name == 'ior' else None), None
        if name in ('delkeys', 'delitems', 'delvalues'):
            K = list(L)
            _, e = call(operator.delitem, K, a[0])
            if e:
                return M, NOTHING, type(e)
            return {k: M[k] for k in K}, None, None
        raise KeyError(name)

    def x_derive(self, name, args, L, M, why):
        x = self.x
        kf = self.kf
        if name in ('or', 'ror'):
            o = args[0]
            om = dict(M) if o is x else dict(o.items()) if isinstance(o, Mapping) else None
            if om is None:
                r, e = call(operator.or_, *((x, o) if name == 'or' else (o, x)))
                need(isinstance(e, TypeError), f'{why} gave {show(r)} {show(e)}, expected TypeError')
                return
            want = {**M, **om} if name == 'or' else {**om, **M}
            if name == 'or':
                mk = lambda: x | o
            elif isinstance(o, self.cls):
                mk = lambda: x.__ror__(o)
            else:
                mk = lambda: x.__ror__(o)
        elif name == 'fromkeys':
            ks = args[0]
            want = dict.fromkeys(ks, *args[1:])
            mk = lambda: self.cls.fromkeys(ks, *args[1:])
            kf = None
        else:
            want = M
            mk = {'copy': lambda: x.copy(), '__copy__': lambda: copy.copy(x), 'pickle': lambda: pickle.loads(pickle.dumps(x)),
                  'reduce': lambda: (lambda r: r[0](*r[1]))(x.__reduce__()), 'construct': lambda: self.cls(x.key, x)}[name]
        snap = [(o, dict(o)) for o in args if isinstance(o, dict) and o is not x]
        y, e = call(mk)
        need(e is None, f'{why} raised {show(e)}')
        need(type(y) is self.cls and y is not x, f'{why} gave a {type(y).__name__}')
        need(y.key is kf, f'{why}: key is {show(y.key)}')
        self.agree(y, want, f'result of {why}', kf)
        coherent(y._list, kf, f'result of {why}')
        for o, s in snap:
            need(dict(o) == s, f'{why} changed its operand')
        extra = self.env.val(10 ** 6, 0)
        y[extra] = 1
        if len(y) > 1:
            y.popitem(0)
        need(same_seq(list(x), L), f'{why}: changing the result changed the dict')
        self.agree(x, M, f'{why}: after changing the result')
        for o, s in snap:
            need(dict(o) == s, f'{why}: changing the result changed the operand')
        y = mk()
        x[extra] = 1
        if L:
            del x[L[0]]
        self.agree(y, want, f'{why}: after changing the original', kf)
        del x[extra]
        if L:
            x[L[0]] = M[L[0]]


# ------------------------------------------------------------- generation
def replay(prog, prop, mods):
    try:
        run = (SetRun if prog['kind'] == 'ss' else DictRun)(prog, prop, mods)
        for op in prog['ops']:
            try:
                run.step(op)
            except Skip:
                pass
    except Mismatch as m:
        return str(m)
    except (Skip, Stop):
        return None
    return None


class MapGen(SeqGen):
    def program(self):
        r = self.rng
        fk = self.focus.get('kind')
        kinds = [k for k, t in (('ss', PROPS_SET), ('sd', PROPS_DICT)) if self.prop in t or self.prop is None]
        kind = fk if fk in kinds and r.random() < .85 else r.choice(kinds)
        key = r.choice([None, None, 'div', 'neg', 'mod', 'const'])
        load = r.choice([1, 2, 3, 4, 4, 5, 7, 10, None])
        spread = r.choice([2, 5, 12, 40, 200])
        lo = -r.choice([0, spread // 2])
        self.ranks = list(range(lo, lo + spread + 1))
        self.known = []
        n = r.choice([0, 1, 2, 3, 8, r.randrange(0, 60), r.randrange(0, 25)])
        if load is None and r.random() < .04:
            n, self.ranks = r.choice([1000, 2001, 2600]), list(range(-200, 3000))
        if self.consts and r.random() < .08:
            c = r.choice(self.consts)
            n = max(0, min(12000, r.choice([c, c, c + c // 4, 2 * c])))
            self.ranks = list(range(0, max(spread, 2 * n)))
        universe = r.choice(['V', 'int', 'int', 'mix', 'half'] + (['str', 'str'] if kind == 'sd' else []))
        if kind == 'ss':
            init = ['L'] + self.vals(n)
        else:
            init = ['P'] + [[v, self.dv()] for v in self.vals(n)]
        return {'kind': kind, 'universe': universe, 'key': key, 'load': load, 'init': init, 'how': r.randrange(4), 'explicit': r.random() < .3,
                'span': [self.ranks[0] - 1, self.ranks[0] + 20], 'ops': []}

    def op(self):
        r, n = self.rng, len(self.cur)
        ss = self.run.prog['kind'] == 'ss'
        table = SET_FAMILY if ss else DICT_FAMILY
        targets = (PROPS_SET if ss else PROPS_DICT).get(self.prop, list(table))
        f = [o for o in self.focus.get('ops', []) if o in table]
        u = r.random()
        if f and u < .35:
            name = r.choice(f)
        elif u < .75:
            name = r.choice(targets)
        else:
            name = r.choice(SET_MUT if ss else DICT_MUT)
        return (self.set_op if ss else self.dict_op)(name, n)

    def some(self, m=None):
        """A handful of values, some of them present."""
        r = self.rng
        n = len(self.cur)
        m = r.choice([0, 1, 2, 3, 5, n // 4, n // 4 + 1, n, r.randrange(0, 12)]) if m is None else m
        return [self.present(r.choice([.2, .5, .9])) if r.random() < .7 else self.val() for _ in range(min(m, 200))]

    def operand(self, sets_only=False):
        r = self.rng
        u = r.random()
        if u < .08:
            return ['me']
        if u < .3:
            return ['SS', r.choice([None, None, 'neg', 'div'])] + self.some()
        if sets_only or u < .55:
            return [r.choice(['S', 'S', 'F'])] + self.some()
        if u < .8:
            return ['S'] + (self.enc_cur() if r.random() < .5 else self.some())
        return [r.choice(['L', 'T', 'O', 'O', 'K'])] + self.some()

    def set_op(self, name, n):
        r = self.rng
        bad = self.prop in ('C16', None) and r.random() < .35
        bv = lambda v: ['fuse', v[1], r.randrange(0, 8)] if bad and v[0] == 'v' else v
        if name in ('add',):
            return [name, bv(self.val() if r.random() < .7 else self.present())]
        if name in ('discard', 'remove', 'count', 'contains', 'bisect'):
            return [name, bv(self.present())]
        if name == 'index':
            a = [name, self.present(.9)]
            k = r.randrange(3)
            return a + [r.choice([None, self.idx(n)]) for _ in range(k)]
        if name == 'pop':
            return [name] if r.random() < .25 else [name, self.idx(n)]
        if name in ('del', 'get'):
            if r.random() < .5:
                return [name, self.idx(n)]
            s = self.slc(n)
            if name == 'del' and r.random() < .5:
                s = ['s', self.idx(n), None, s[3]]
                s[2] = s[1] + r.choice([1, 2, 3, -1, -2, 5])
            return [name, s]
        if name == 'reset':
            return [name, r.choice([1, 2, 3, 4, 5, 8, 20])]
        if name in ('update', 'difference_update', 'intersection_update', 'union', 'intersection', 'difference'):
            return [name] + [self.operand() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
        if name in ('symmetric_difference', 'symmetric_difference_update'):
            return [name, self.operand()]
        if name in ('ior', 'iand', 'isub', 'ixor', 'or', 'and', 'sub', 'xor', 'ror', 'rand', 'rxor', 'rsub'):
            return [name, self.operand(True)]
        if name == 'cmp':
            o = self.operand(True)
            u = r.random()
            cur = self.enc_cur()
            if u < .15:
                o = ['S'] + cur
            elif u < .3:
                o = ['S'] + cur[:-1]
            elif u < .45:
                o = ['SS', r.choice([None, 'neg'])] + cur + self.some(1)
            elif u < .5:
                o = r.choice([5, None, ['L']])
            return [name, r.choice(list(CMPS)), o]
        if name in ('isdisjoint', 'issubset', 'issuperset'):
            return [name, self.operand()]
        return [name]

    def dv(self):
        """A value to store."""
        return self.rng.choice([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, None, '', 'x', False])

    def pairs(self, kind=None):
        return [[k, self.dv()] for k in self.some()]

    def dict_op(self, name, n):
        r = self.rng
        bad = self.prop in ('C16', None) and r.random() < .35
        bv = lambda v: ['fuse', v[1], r.randrange(0, 8)] if bad and v[0] == 'v' else v
        if name in ('setitem',):
            return [name, bv(self.val() if r.random() < .7 else self.present()), self.dv()]
        if name == 'setdefault':
            a = [name, bv(self.val() if r.random() < .6 else self.present())]
            return a + ([self.dv()] if r.random() < .6 else [])
        if name in ('delitem', 'get', 'contains'):
            return [name, bv(self.present())]
        if name == 'pop':
            return [name, self.present()] + ([self.dv()] if r.random() < .4 else [])
        if name in ('popitem', 'peekitem'):
            return [name] if r.random() < .25 else [name, self.idx(n)]
        if name in ('delkeys', 'delitems', 'delvalues', 'keys', 'items', 'values'):
            if r.random() < .5:
                return [name, self.idx(n)]
            s = self.slc(n)
            if name[:3] == 'del' and r.random() < .6:
                s = ['s', self.idx(n), None, s[3]]
                s[2] = s[1] + r.choice([1, 2, 3, -1, -2, 5])
            return [name, s]
        if name in ('update', 'ior', 'or', 'ror'):
            u = r.random()
            if name == 'update' and self.run.prog['universe'] == 'str' and r.random() < .5:
                kw = ['KW'] + self.pairs()
                return [name] + ([r.choice([['me'], ['D'] + self.pairs(), ['P'] + self.pairs(), ['PI'] + self.pairs()])] if r.random() < .6 else []) + [kw]
            if name == 'update' and u < .05:
                return [name]
            if u < .13:
                return [name, ['mitems'] if name == 'update' and u < .08 else ['me']]
            if u < .35:
                return [name, ['SD', r.choice([None, 'neg', 'div'])] + self.pairs()]
            if u < .7 or name == 'ror':
                return [name, ['D'] + self.pairs()]
            if name in ('or',) and u > .95:
                return [name, 5]
            if name == 'or':
                return [name, [r.choice('DDM')] + self.pairs()]
            return [name, [r.choice(['P', 'P', 'PI', 'M'])] + self.pairs()]
        if name == 'fromkeys':
            return [name, ['L'] + self.some()] + ([self.dv()] if r.random() < .5 else [])
        if name == 'kindex':
            return [name, self.present(.9)]
        if name == 'dindex':
            return [name, self.present(.9)] + [r.choice([None, self.idx(n)]) for _ in range(r.randrange(3))]
        if name in ('vcount', 'vindex'):
            return [name, self.dv()]
        if name == 'iindex':
            return [name, self.present(.9), self.dv()]
        if name == 'reset':
            return [name, r.choice([1, 2, 3, 4, 5, 8, 20])]
        return [name]

    def idx(self, n):
        r = self.rng
        c = [0, 1, -1, 2, -2, n - 1, n, n + 1, -n, -n - 1, -n + 1, n // 2]
        if n:
            c += [r.randrange(n), -r.randrange(n) - 1, r.randrange(n)] * 3
        if self.consts and r.random() < 0.1:
            c += [r.choice(self.consts), -r.choice(self.consts)] * 3
        return r.choice(c)

    def pos(self):
        r, n = self.rng, len(self.cur)
        return r.choice([0, n - 1, r.randrange(n), r.randrange(n)])

    def keyarg(self):
        return None

    def drive(self, mods, nops, deadline=None):
        import time
        prog = self.program()
        try:
            self.run = (SetRun if prog['kind'] == 'ss' else DictRun)(prog, self.prop, mods)
            for _ in range(nops):
                cur, e = call(list, self.run.x)
                if e is not None:
                    raise Mismatch(f'iterating raised {show(e)}')
                self.cur = cur
                if any(isinstance(v, Fuse) for v in cur):
                    break
                op = self.op()
                prog['ops'].append(op)
                try:
                    self.run.step(op)
                except Skip:
                    pass
                if deadline and time.time() > deadline:
                    break
        except Mismatch as m:
            return prog, str(m), len(prog['ops'])
        except (Skip, Stop):
            pass
        return None, None, len(prog['ops'])
