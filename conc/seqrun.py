"""Sorted lists, with and without key, against plain lists."""
import bisect
import itertools
import operator
import pickle
from collections.abc import Sequence
from core import (Want, Mismatch, Skip, Stop, NOTHING, call, exc_name, show, need, sort_stable, is_sorted, eq_multiset, coherent, Env)
from values import V, Fuse, KEYS, items, same, same_seq, rank

CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}

# op -> family
FAMILY = {
    'update_bad': 'bad', 'add': 'add', 'update': 'bulk', 'iadd': 'bulk', 'imul': 'imul', 'clear': 'clear', 'reinit': 'bulk',
    'remove': 'removev', 'discard': 'removev', 'pop': 'removep', 'del': 'removep', 'reset': 'reset',
    'get': 'getp', 'contains': 'search', 'count': 'search', 'index': 'search', 'bisect_left': 'search', 'bisect_right': 'search', 'bisect': 'search',
    'bisect_key_left': 'search', 'bisect_key_right': 'search', 'bisect_key': 'search', 'len': 'len',
    'iter': 'iterate', 'reversed': 'iterate', 'islice': 'iterate', 'irange': 'iterate', 'irange_key': 'iterate',
    'cmp': 'compare', 'copy': 'derive', '__copy__': 'derive', 'plus': 'derive', 'rplus': 'derive', 'times': 'derive', 'rtimes': 'derive', 'pickle': 'derive',
    'reduce': 'derive', 'construct': 'derive',
    'setitem': 'refuse', 'append': 'refuse', 'insert': 'refuse', 'extend': 'refuse', 'reverse': 'refuse',
}
MUTATORS = ['add', 'add', 'add', 'update', 'iadd', 'remove', 'discard', 'pop', 'del', 'del']
PROPS = {
    'C01': ({'add', 'bulk', 'imul', 'clear', 'removev', 'removep', 'len'}, []),
    'C02': ({'getp'}, ['get']),
    'C03': ({'removep'}, ['pop', 'del']),
    'C04': ({'search'}, ['contains', 'count', 'index', 'bisect_left', 'bisect_right', 'bisect', 'bisect_key_left', 'bisect_key_right', 'bisect_key']),
    'C05': ({'iterate'}, ['iter', 'reversed', 'islice', 'irange', 'irange_key']),
    'C06': ({'removev'}, ['remove', 'discard']),
    'C07': ({'add', 'bulk'}, ['add', 'update', 'iadd', 'reinit']),
    'C08': (set(FAMILY.values()), ['update_bad', 'reset', 'get', 'index', 'clear', 'imul']),
    'C09': ({'derive'}, ['copy', '__copy__', 'plus', 'rplus', 'times', 'rtimes', 'pickle', 'reduce', 'construct']),
    'C10': ({'compare'}, ['cmp']),
    'C16': (set(FAMILY.values()), ['remove', 'pop', 'del', 'index', 'get', 'setitem', 'append', 'insert', 'extend', 'reverse', 'add', 'discard', 'contains', 'count', 'bisect_left', 'update']),
}


def flat(x):
    ls = getattr(x, '_lists', None)
    if ls is not None:
        return [v for b in ls for v in b]
    return list(x)


class SeqRun:
    def __init__(self, prog, prop, mods):
        self.prog, self.prop, self.mods = prog, prop, mods
        self.fams = PROPS[prop][0] if prop else set(FAMILY.values())
        self.env = Env(prog['universe'])
        self.kf = KEYS[prog['key']]
        SL, SKL = mods['sortedlist'].SortedList, mods['sortedlist'].SortedKeyList
        keyed = prog['kind'] == 'skl'
        self.keyed = keyed
        self.cls = SKL if keyed else SL
        if keyed and self.kf is None:
            self.kf = KEYS['same']
            self.userkey = None
        else:
            self.userkey = self.kf
        init = self.env.dec(prog['init'])
        vals = list(init) if not isinstance(init, list) else init
        args = (vals,) if vals or prog.get('explicit') else ()
        how = prog.get('how', 0)
        if not keyed:
            x, e = call(self.cls, *args)
        elif how == 1 and self.userkey is not None:
            x, e = call(SL, *args, key=self.userkey)
        elif self.userkey is None:
            x, e = call(self.cls, *args)
        else:
            x, e = call(self.cls, *(args or (None,)), key=self.userkey)
        need(e is None, f'construction from {show(vals)} raised {show(e)}')
        self.x = x
        if 'add' in self.fams or prop is None:
            need(type(x) is self.cls, f'construction gave {type(x).__name__}')
            self.content('construction', vals, sort_stable(vals, self.kf))
        if prog['load']:
            before = list(x)
            _, e = call(x._reset, prog['load'])
            if prop in ('C08', None):
                need(e is None, f'changing the load factor raised {show(e)}')
                need(same_seq(list(x), before), 'changing the load factor changed the contents')
        self.coh('construction')

    # ------------------------------------------------------------- checking
    def coh(self, why):
        if self.prop in ('C08', None):
            coherent(self.x, self.kf, why)

    def content(self, why, base, want):
        got, e = call(list, self.x)
        need(e is None, f'{why}: iterating raised {show(e)}')
        if self.prop == 'C01':
            need(is_sorted(got, self.kf), f'{why}: not in order: {show(got)}')
            need(eq_multiset(got, want), f'{why}: contents {show(got)}, expected {show(want)}')
            need(len(self.x) == len(want), f'{why}: len() is {len(self.x)}, expected {len(want)}')
        else:
            need(same_seq(got, want), f'{why}: contents {show(got)}, expected {show(want)}')

    def step(self, op):
        name, args = op[0], op[1:]
        fam = FAMILY[name]
        x = self.x
        before, e = call(flat, x) if fam == 'iterate' else call(list, x)
        if e is not None:
            if self.prop in ('C05', 'C01', None):
                raise Mismatch(f'iterating raised {show(e)}')
            raise Skip()
        if len(before) > 40000:
            raise Skip()
        if not is_sorted(before, self.kf):
            if self.prop in ('C01', None):
                raise Mismatch(f'not in order: {show(before)}')
        args = [self.env.dec(a, x) for a in args]
        fuse = next((a for a in args if isinstance(a, Fuse)), None)
        if fuse is not None:
            return self.fused(name, args, before)
        self.before = before
        if name == 'update_bad':
            # a bulk update with values that cannot be ordered: all bets on the
            # new contents are off, but the container must stay coherent
            ret, exc = call(x.update, *args)
            why = f'update({show(args[0])}) on {show(before)} raised {show(exc)}'
            if any(isinstance(v, Fuse) for v in flat(x)) and exc is None:
                raise Stop()
            if self.prop in ('C08', None):
                for f in args[0]:
                    if isinstance(f, Fuse):
                        f.n = 10 ** 9
                coherent(x, self.kf, f'after {why}')
            if any(isinstance(v, Fuse) for v in flat(x)):
                raise Stop()
            return
        want = getattr(self, 'w_' + name)(before, *args)
        why = f'{name}({", ".join(show(a) for a in args)}) on {show(before)}'
        if fam == 'derive' or fam == 'compare':
            if self.prop == 'C08' or fam not in self.fams:
                return
            return want(why) if callable(want) else None
        ret, exc = call(getattr(self, 'r_' + name), x, *args)
        if fam not in self.fams:
            return
        if self.prop == 'C08':
            self.coh(f'after {why}')
            if fam == 'reset':
                self.content(f'after {why}', before, want.after)
            return
        if self.prop == 'C16':
            if want.exc is not None and exc is not None:
                if not isinstance(exc, want.exc):
                    raise Mismatch(f'{why} raised {show(exc)} instead of {want.exc.__name__}')
                self.content(f'{why} raised {exc_name(exc)}; afterwards', before, before)
                coherent(x, self.kf, f'after {why}')
            elif want.exc is not None:
                raise Mismatch(f'{why} should raise {want.exc.__name__} and returned {show(ret)}')
            return
        if want.exc is not None:
            if self.prop == 'C01' or self.prop == 'C07':
                if exc is not None:
                    self.content(f'after {why} raised {exc_name(exc)}', before, before)
                else:
                    raise Mismatch(f'{why} should raise {want.exc.__name__}')
                return
            need(exc is not None, f'{why} should raise {want.exc.__name__} and returned {show(ret)}')
            need(isinstance(exc, want.exc), f'{why} raised {show(exc)} instead of {want.exc.__name__}')
        else:
            need(exc is None, f'{why} raised {show(exc)}')
            if want.ret is not NOTHING and self.prop not in ('C01', 'C07'):
                r = ret
                if isinstance(want.ret, list) and not isinstance(r, list):
                    r, e2 = call(list, r)
                    need(e2 is None, f'{why}: iterating the result raised {show(e2)}')
                need(same(want.ret, r), f'{why} gave {show(r)}, expected {show(want.ret)}')
        after = want.after if want.after is not None else before
        if fam != 'iterate':
            self.content(f'after {why}', before, after)
        if self.prop is None:
            coherent(x, self.kf, f'after {why}')

    def fused(self, name, args, before):
        """A value that stops being comparable after some comparisons."""
        if self.prop not in ('C16', None):
            return
        why = f'{name}({", ".join(show(a) for a in args)}) on {show(before)}'
        ret, exc = call(getattr(self, 'r_' + name), self.x, *args)
        if exc is not None:
            got = list(self.x)
            need(same_seq(got, before), f'{why} raised {exc_name(exc)}; afterwards contents {show(got)}')
            coherent(self.x, self.kf, f'after {why} raised {exc_name(exc)}')
        elif any(isinstance(v, Fuse) for v in flat(self.x)):
            raise Stop()

    # ------------------------------------------------------ real operations
    def r_add(self, x, v): return x.add(v)
    def r_update(self, x, it): return x.update(it)

    def r_iadd(self, x, it):
        y = operator.iadd(x, it)
        need(y is x, 'in-place + gave another object')

    def r_imul(self, x, n):
        y = operator.imul(x, n)
        need(y is x, 'in-place * gave another object')

    def r_clear(self, x): return x.clear()

    def r_reinit(self, x, it):
        x.__init__(it, key=self.kf) if self.keyed else x.__init__(it)

    def r_remove(self, x, v): return x.remove(v)
    def r_discard(self, x, v): return x.discard(v)
    def r_pop(self, x, *a): return x.pop(*a)

    def r_del(self, x, i):
        del x[i]

    def r_reset(self, x, load): return x._reset(load)
    def r_get(self, x, i): return x[i]
    def r_len(self, x): return len(x)
    def r_contains(self, x, v): return v in x
    def r_count(self, x, v): return x.count(v)
    def r_index(self, x, *a): return x.index(*a)
    def r_bisect_left(self, x, v): return x.bisect_left(v)
    def r_bisect_right(self, x, v): return x.bisect_right(v)
    def r_bisect(self, x, v): return x.bisect(v)
    def r_bisect_key_left(self, x, v): return x.bisect_key_left(v)
    def r_bisect_key_right(self, x, v): return x.bisect_key_right(v)
    def r_bisect_key(self, x, v): return x.bisect_key(v)
    def r_iter(self, x): return list(iter(x))
    def r_reversed(self, x): return list(reversed(x))
    def r_islice(self, x, *a): return list(x.islice(*a))
    def r_irange(self, x, lo, hi, inc, rev): return list(x.irange(lo, hi, tuple(inc), rev))
    def r_irange_key(self, x, lo, hi, inc, rev): return list(x.irange_key(lo, hi, tuple(inc), rev))

    def r_setitem(self, x, i, v):
        x[i] = v

    def r_append(self, x, v): return x.append(v)
    def r_insert(self, x, i, v): return x.insert(i, v)
    def r_extend(self, x, vs): return x.extend(vs)
    def r_reverse(self, x): return x.reverse()

    # ---------------------------------------------------------- expectation
    def ks(self, L):
        return [self.kf(v) for v in L] if self.kf else L

    def k(self, v):
        return self.kf(v) if self.kf else v

    def w_add(self, L, v):
        p = bisect.bisect_right(self.ks(L), self.k(v))
        return Want(None, L[:p] + [v] + L[p:])

    def merged(self, L, it):
        if it is self.x:
            return sort_stable(L + L, self.kf)
        vs = it if isinstance(it, (list, tuple)) else None
        if vs is None:
            raise Skip()
        return sort_stable(L + items(vs), self.kf)

    def w_update(self, L, it): return Want(None, self.merged(L, it))
    def w_iadd(self, L, it): return Want(NOTHING, self.merged(L, it))
    def w_imul(self, L, n): return Want(NOTHING, sort_stable(L * n, self.kf))
    def w_clear(self, L): return Want(None, [])
    def w_reinit(self, L, it): return Want(NOTHING, sort_stable(items(it), self.kf))

    def w_remove(self, L, v):
        for i, e in enumerate(L):
            if e == v:
                return Want(None, L[:i] + L[i + 1:])
        return Want(exc=ValueError)

    def w_discard(self, L, v):
        w = self.w_remove(L, v)
        return w if w.exc is None else Want(None, L)

    def w_pop(self, L, *a):
        M = list(L)
        r, e = call(M.pop, *a)
        return Want(exc=IndexError) if e else Want(r, M)

    def w_del(self, L, i):
        M = list(L)
        _, e = call(operator.delitem, M, i)
        return Want(exc=type(e)) if e else Want(NOTHING, M)

    def w_reset(self, L, load): return Want(None, L)

    def w_get(self, L, i):
        r, e = call(operator.getitem, L, i)
        return Want(exc=type(e)) if e else Want(r)

    def w_len(self, L): return Want(len(L))
    def w_contains(self, L, v): return Want(any(e == v for e in L))
    def w_count(self, L, v): return Want(sum(1 for e in L if e == v))

    def w_index(self, L, *a):
        r, e = call(L.index, *[(0 if j == 1 else len(L)) if y is None else y for j, y in enumerate(a)])
        return Want(exc=ValueError) if e else Want(r)

    def bl(self, L, k):
        return sum(1 for q in self.ks(L) if q < k)

    def br(self, L, k):
        return sum(1 for q in self.ks(L) if not (k < q))

    def w_bisect_left(self, L, v): return Want(self.bl(L, self.k(v)))
    def w_bisect_right(self, L, v): return Want(self.br(L, self.k(v)))
    w_bisect = w_bisect_right
    def w_bisect_key_left(self, L, k): return Want(self.bl(L, k))
    def w_bisect_key_right(self, L, k): return Want(self.br(L, k))
    w_bisect_key = w_bisect_key_right
    def w_iter(self, L): return Want(L)
    def w_reversed(self, L): return Want(L[::-1])

    def w_islice(self, L, *a):
        a = list(a) + [None, None, False][len(a):]
        r = L[slice(a[0], a[1])]
        return Want(r[::-1] if a[2] else r)

    def window(self, L, lo, hi, inc, rev):
        i = 0 if lo is None else (self.bl(L, lo) if inc[0] else self.br(L, lo))
        j = len(L) if hi is None else (self.br(L, hi) if inc[1] else self.bl(L, hi))
        r = L[i:j] if i < j else []
        return Want(r[::-1] if rev else r)

    def w_irange(self, L, lo, hi, inc, rev):
        return self.window(L, None if lo is None else self.k(lo), None if hi is None else self.k(hi), inc, rev)

    def w_irange_key(self, L, lo, hi, inc, rev): return self.window(L, lo, hi, inc, rev)
    def w_setitem(self, L, i, v): return Want(exc=NotImplementedError)
    def w_append(self, L, v): return Want(exc=NotImplementedError)
    def w_insert(self, L, i, v): return Want(exc=NotImplementedError)
    def w_extend(self, L, vs): return Want(exc=NotImplementedError)
    def w_reverse(self, L): return Want(exc=NotImplementedError)

    # ---------------------------------------------------------- comparisons
    def w_cmp(self, L, op, other):
        def run(why):
            x, f = self.x, CMP[op]
            o, seq = other, None
            if isinstance(other, tuple) and other and other[0] == 'sl':
                seq = sort_stable(other[1], self.kf)
                o = self.cls(other[1], key=self.kf) if self.keyed else self.cls(other[1])
            elif other is x:
                seq = L
            elif isinstance(other, Sequence):
                seq = list(other)
            ret, exc = call(f, x, o)
            if seq is None:
                if op in ('eq', 'ne'):
                    need(exc is None and ret is (op == 'ne'), f'{why} gave {show(ret)} {show(exc)}')
                else:
                    need(isinstance(exc, TypeError), f'{why} gave {show(ret)} {show(exc)}, expected TypeError')
            else:
                w = f(L, seq)
                need(exc is None, f'{why} raised {show(exc)}')
                need(ret is w, f'{why} gave {show(ret)}, expected {w}')
            need(same_seq(list(x), L), f'{why} changed the sorted list')
        return run

    # ----------------------------------------------------------- derivation
    def derived(self, why, make, want, others=(), pickled=False):
        x, L = self.x, self.before
        snap = [(o, list(o)) for o in others if isinstance(o, (list, set, tuple))]
        y, e = call(make)
        need(e is None, f'{why} raised {show(e)}')
        need(y is not x, f'{why} returned the container itself')
        need(type(y) is self.cls, f'{why} gave a {type(y).__name__}')
        need((y.key is x.key) if self.kf is not None else y.key is None, f'{why}: key is {show(y.key)}')

        def eqs(a, b):
            if pickled:
                return len(a) == len(b) and all(repr(p) == repr(q) for p, q in zip(a, b))
            return is_sorted(a, self.kf) and eq_multiset(a, b)
        got, e = call(list, y)
        need(e is None and eqs(got, want), f'{why} contains {show(got)}, expected {show(want)}')
        need(len(y) == len(want), f'{why}: len() is {len(y)}')
        for o, s in snap:
            need(same_seq(list(o), s), f'{why} changed its operand to {show(o)}')
        need(same_seq(list(x), L), f'{why} changed the container to {show(list(x))}')
        coherent(y, self.kf, f'result of {why}')
        # independence
        W = list(y)
        for v in (L + want)[:2] + (L + want)[-2:]:
            _, e = call(y.add, v)
            need(e is None, f'{why}, adding to the result raised {show(e)}')
        if len(y):
            call(y.pop, 0)
        need(same_seq(list(x), L), f'{why}: changing the result changed the container')
        coherent(x, self.kf, f'after {why} and changing the result')
        coherent(y, self.kf, f'changed result of {why}')
        y, e = call(make)
        if e is None:
            W = list(y)
            ex = L[:1]
            for v in ex:
                x.add(v)
            if len(x):
                x.pop()
            if len(x):
                x.pop(0)
            need(same_seq(list(y), W), f'{why}: changing the container changed the result')
            x.clear()
            need(same_seq(list(y), W), f'{why}: clearing the container changed the result')
            x.update(L)

    def w_copy(self, L): return lambda why: self.derived(why, lambda: self.x.copy(), L)

    def w___copy__(self, L):
        import copy
        return lambda why: self.derived(why, lambda: copy.copy(self.x), L)

    def w_plus(self, L, it):
        want = sort_stable(L + (L if it is self.x else items(it)), self.kf)
        return lambda why: self.derived(why, lambda: self.x + it, want, [it])

    def w_rplus(self, L, it):
        if it is self.x or not isinstance(it, (list, tuple)):
            return lambda why: None
        want = sort_stable(list(it) + L, self.kf)
        if isinstance(it, (list, tuple)):
            # list + sorted list is list's business when it accepts it; it does not
            return lambda why: self.derived(why, lambda: self.x.__radd__(it), want, [it])

    def w_times(self, L, n): return lambda why: self.derived(why, lambda: self.x * n, sort_stable(L * n, self.kf))
    def w_rtimes(self, L, n): return lambda why: self.derived(why, lambda: n * self.x, sort_stable(L * n, self.kf))

    def w_pickle(self, L):
        return lambda why: self.derived(why, lambda: pickle.loads(pickle.dumps(self.x)), L, pickled=True)

    def w_reduce(self, L):
        def mk():
            r = self.x.__reduce__()
            return r[0](*r[1])
        return lambda why: self.derived(why, mk, L)

    def w_construct(self, L):
        mk = (lambda: self.cls(self.x, key=self.x.key)) if self.keyed else (lambda: self.cls(self.x))
        return lambda why: self.derived(why, mk, L)


# ---------------------------------------------------------------- generation
def gen_vals(rng, n, ranks, u0):
    return [['v', rng.choice(ranks), u0 + i] for i in range(n)]


class SeqGen:
    def __init__(self, rng, prop, focus=None, consts=()):
        self.rng, self.prop, self.focus, self.consts = rng, prop, focus or {}, list(consts)
        self.uid = 0

    def val(self):
        self.uid += 1
        r = self.rng
        if self.known and r.random() < 0.15:
            return r.choice(self.known)
        v = ['v', r.choice(self.ranks), self.uid]
        if r.random() < 0.3:
            self.known.append(v)
        return v

    def vals(self, n):
        return [self.val() for _ in range(n)]

    def program(self):
        r = self.rng
        kind = self.focus.get('kind') if self.focus.get('kind') in ('sl', 'skl') and r.random() < 0.8 else r.choice(['sl', 'skl'])
        key = r.choice(['div', 'neg', 'mod', 'const', 'div', 'div', None]) if kind == 'skl' else None
        load = r.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 10, 17, None])
        if r.random() < 0.15 and self.consts:
            c = r.choice(self.consts)
            if 1 <= c <= 400:
                load = c
        spread = r.choice([1, 3, 8, 30, 200])
        self.ranks = list(range(-spread // 2, spread + 1))
        self.known = []
        L = load or 8
        n = r.choice([0, 0, 1, 2, 3, L, 2 * L, 2 * L + 1, 4 * L, r.randrange(0, 14 * L + 1), r.randrange(0, 40)])
        if load is None and r.random() < 0.25:
            n = r.choice([999, 1000, 1001, 1999, 2000, 2001, 2500, 4001])
        if self.consts and r.random() < 0.1:
            c = r.choice(self.consts)
            n = max(0, min(25000, r.choice([c - 1, c, c + 1, c + c // 4, 2 * c])))
        init = ['L'] + self.vals(n)
        universe = r.choice(['V', 'V', 'int', 'mix', 'half']) if n < 6000 else 'int'
        return {'kind': kind, 'universe': universe, 'key': key, 'load': load, 'init': init, 'how': r.randrange(3), 'explicit': r.random() < .5, 'ops': []}

    def idx(self, n):
        r = self.rng
        c = [0, 1, -1, 2, -2, n - 1, n, n + 1, -n, -n - 1, -n + 1, n // 2, -(n // 2)]
        if n:
            c += [r.randrange(n), -r.randrange(n) - 1, r.randrange(n)] * 3
        # edges of internal blocks
        ls = getattr(self.run.x, '_lists', None)
        if ls:
            p = r.randrange(len(ls) + 1)
            e = sum(len(b) for b in ls[:p])
            c += [e, e - 1, e + 1, e - n] * 2
        if self.consts and r.random() < 0.1:
            c += [r.choice(self.consts), -r.choice(self.consts)] * 3
        return r.choice(c)

    def slc(self, n):
        r = self.rng
        o = lambda: None if r.random() < 0.2 else self.idx(n)
        st = r.choice([None, None, 1, 1, -1, -1, 2, -2, 3, -3, n or 1, -(n or 1), 0, r.randrange(1, 9), -r.randrange(1, 9)])
        return ['s', o(), o(), st]

    def present(self, frac=0.75):
        """A value probably equal to one inside."""
        r = self.rng
        cur = self.cur
        if cur and r.random() < frac:
            v = cur[self.pos()]
            rk = rank(v)
            if isinstance(rk, float) and not rk.is_integer():
                rk = int(rk * 2)
            elif self.run.prog['universe'] == 'half':
                rk = int(rk * 2)
            return ['v', int(rk), r.randrange(4)]
        return ['v', r.choice(self.ranks + [min(self.ranks) - 1, max(self.ranks) + 1]), r.randrange(4)]

    def pos(self):
        r = self.rng
        n = len(self.cur)
        ls = getattr(self.run.x, '_lists', None)
        if ls and r.random() < 0.5:
            p = r.randrange(len(ls))
            e = sum(len(b) for b in ls[:p])
            return max(0, min(n - 1, r.choice([e, e + len(ls[p]) - 1])))
        return r.choice([0, n - 1, r.randrange(n), r.randrange(n)])

    def keyarg(self):
        v = self.run.env.dec(self.present())
        k = self.run.kf(v) if self.run.kf else v
        if isinstance(k, V):
            return None
        return k + self.rng.choice([0, 0, 0, 1, -1])

    def iterable(self, n=None):
        r = self.rng
        m = r.choice([0, 1, 2, 3, 5, len(self.cur) // 4, len(self.cur) // 4 + 1, r.randrange(0, 20), len(self.cur)]) if n is None else n
        m = min(m, 600)
        return ['L'] + self.vals(m)

    def op(self):
        r = self.rng
        run = self.run
        n = len(self.cur)
        targets = [o for o in PROPS[self.prop][1]] if self.prop else list(FAMILY)
        f = [o for o in self.focus.get('ops', []) if o in FAMILY]
        u = r.random()
        if f and u < 0.35:
            name = r.choice(f)
        elif targets and u < 0.7:
            name = r.choice(targets)
        else:
            name = r.choice(MUTATORS)
            if n > 600 and name in ('update', 'iadd') and r.random() < 0.7:
                name = 'del'
        if not run.keyed and name in ('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key'):
            name = {'irange_key': 'irange'}.get(name, 'bisect_left')
        bad = self.prop in ('C16', None) and r.random() < 0.3
        bv = lambda v: ['fuse', v[1], r.randrange(0, 8)] if bad and v[0] == 'v' else v
        if name == 'add':
            return [name, bv(self.val() if r.random() < .7 else self.present())]
        if name in ('update', 'iadd', 'plus', 'rplus'):
            if r.random() < 0.12 and n < 300:
                return [name, ['me']]
            it = self.iterable()
            if name != 'rplus' and r.random() < .3:
                it = [r.choice('TTO')] + it[1:]
            return [name, it]
        if name == 'reinit':
            return [name, [r.choice('LLO')] + self.iterable()[1:]]
        if name == 'update_bad':
            it = self.iterable()
            it.insert(r.randrange(1, len(it) + 1), ['fuse', r.choice(self.ranks), r.randrange(0, 12)])
            return [name, it]
        if name in ('imul', 'times', 'rtimes'):
            return [name, r.choice([0, 1, 2, 3, -1, 1, 2]) if n < 300 else r.choice([0, 1, -1])]
        if name in ('remove', 'discard', 'contains', 'count', 'bisect_left', 'bisect_right', 'bisect'):
            return [name, bv(self.present())]
        if name == 'index':
            a = [name, bv(self.present(.9))]
            k = r.randrange(3)
            if k >= 1:
                a.append(r.choice([None, self.idx(n), self.idx(n)]))
            if k >= 2:
                a.append(r.choice([None, self.idx(n), self.idx(n)]))
            return a
        if name == 'pop':
            return [name] if r.random() < .25 else [name, self.idx(n)]
        if name in ('del', 'get'):
            if r.random() < .5:
                return [name, self.idx(n)]
            s = self.slc(n)
            if name == 'del' and r.random() < .5:
                # small slices keep the container large
                s = ['s', self.idx(n), None, s[3]]
                s[2] = s[1] + r.choice([1, 2, 3, -1, -2, 5])
            return [name, s]
        if name == 'reset':
            return [name, r.choice([1, 2, 3, 4, 5, 6, 8, 11, 100])]
        if name in ('bisect_key_left', 'bisect_key_right', 'bisect_key'):
            k = self.keyarg()
            return [name, k] if k is not None else ['bisect_left', self.present()]
        if name in ('iter', 'reversed', 'copy', '__copy__', 'pickle', 'reduce', 'construct', 'clear', 'reverse', 'len'):
            return [name]
        if name == 'islice':
            o = lambda: None if r.random() < 0.2 else self.idx(n)
            return [name] + [o(), o(), r.random() < .5][:r.randrange(4)]
        if name in ('irange', 'irange_key'):
            if name == 'irange_key' and self.keyarg() is None:
                name = 'irange'
            g = (lambda: self.present()) if name == 'irange' else self.keyarg
            o = lambda: None if r.random() < 0.2 else g()
            return [name, o(), o(), ['L', r.random() < .5, r.random() < .5], r.random() < .5]
        if name == 'cmp':
            op = r.choice(list(CMP))
            q = r.random()
            cur = self.enc_cur()
            if q < .12:
                return [name, op, ['me']]
            if q < .24:
                return [name, op, r.choice([5, None, ['S'], ['str', ''], ['D']])] if op in ('eq', 'ne') or True else None
            base = list(cur)
            m = r.randrange(4)
            if base and m == 0:
                base = base[:r.randrange(len(base) + 1)]
            elif m == 1:
                base = base + self.vals(r.randrange(1, 4))
            elif base and m == 2:
                i = r.randrange(len(base))
                base[i] = ['v', base[i][1] + r.choice([-1, 0, 1]), 1]
            if q < .5:
                return [name, op, ['T', ['str', 'sl'], ['L'] + base]]
            return [name, op, [r.choice(['L', 'T'])] + base]
        if name in ('setitem', 'insert'):
            return [name, self.idx(n), self.val()]
        if name == 'append':
            return [name, self.val()]
        if name == 'extend':
            return [name, self.iterable(2)]
        raise KeyError(name)

    def enc_cur(self):
        """Current contents as encoded arguments of the same rank."""
        half = self.run.prog['universe'] == 'half'
        return [['v', int(rank(v) * 2) if half else int(rank(v)), 0] for v in self.cur[:400]]

    def drive(self, mods, nops, deadline=None):
        """Run one random program; returns (program, message) on a mismatch."""
        import time
        prog = self.program()
        try:
            self.run = SeqRun(prog, self.prop, mods)
            count = 0
            for _ in range(nops):
                self.cur = list(self.run.x)
                if len(self.cur) > max(6000, len(prog['init']) * 1.2):
                    break
                op = self.op()
                prog['ops'].append(op)
                count += 1
                try:
                    self.run.step(op)
                except Skip:
                    pass
                if deadline and time.time() > deadline:
                    break
        except Mismatch as m:
            return prog, str(m), count if 'count' in dir() else 0
        except (Skip, Stop):
            return None, None, len(prog['ops'])
        return None, None, len(prog['ops'])


def replay(prog, prop, mods):
    """Message if the program still shows a mismatch, else None."""
    try:
        run = SeqRun(prog, prop, mods)
        for op in prog['ops']:
            try:
                run.step(op)
            except Skip:
                pass
    except Mismatch as m:
        return str(m)
    except (Skip, Stop):
        return None
    return None
