"""Concrete runs of the real containers against independent reference models.

A *program* is a JSON value: {"kind", "universe", "key", "load", "init", "ops"}.
Every operation is judged on its own: the state seen just before it (read from
the container by iteration) is the base of the expected outcome, so that a
mismatch is charged to the property whose operation shows it.
"""
import bisect
import contextlib
import io
import itertools
import operator
import pickle
import random
from values import V, Fuse, KEYS, Once, Map, KW, mkval, same, same_seq, rank

NOTHING = object()


class Mismatch(Exception):
    pass


class Skip(Exception):
    """The program is outside the assumptions (not a finding)."""


class Stop(Exception):
    pass


def call(f, *a, **k):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except RecursionError:
        raise
    except Exception as e:      # noqa
        return None, e


def exc_name(e):
    return type(e).__name__


class Want:
    """Expected outcome of an operation."""

    def __init__(self, ret=NOTHING, after=None, exc=None):
        self.ret, self.after, self.exc = ret, after, exc


def show(x):
    try:
        s = repr(x)
    except Exception as e:   # noqa
        s = f'<{type(x).__name__}: repr raised {type(e).__name__}>'
    return s if len(s) < 300 else s[:300] + '...'


def need(cond, msg):
    if not cond:
        raise Mismatch(msg)


def sort_stable(xs, kf):
    return sorted(xs, key=kf) if kf else sorted(xs)


def lt_rank(kf, a):
    return kf(a) if kf else a


def is_sorted(xs, kf):
    ks = [kf(x) for x in xs] if kf else xs
    return all(not (ks[i + 1] < ks[i]) for i in range(len(ks) - 1))


def eq_multiset(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    try:
        from collections import Counter
        return Counter(a) == Counter(b)
    except TypeError:
        pass
    for x in a:
        for i, y in enumerate(b):
            if x == y:
                del b[i]
                break
        else:
            return False
    return True


def coherent(sl, kf, why):
    """Internal consistency of a sorted list (bucket bounds included)."""
    load = getattr(sl, '_load', None)
    lists = getattr(sl, '_lists', None)
    maxes = getattr(sl, '_maxes', None)
    index = getattr(sl, '_index', None)
    if load is None or lists is None or maxes is None or index is None:
        load = 4
    else:
        n = sum(len(b) for b in lists)
        need(len(sl) == n, f'{why}: length {len(sl)} but {n} elements stored')
        need(len(lists) == len(maxes), f'{why}: {len(maxes)} maxima for {len(lists)} blocks')
        for p, b in enumerate(lists):
            need(len(b) > 0, f'{why}: empty block {p}')
            k = kf(b[-1]) if kf else b[-1]
            need(maxes[p] == k, f'{why}: maximum of block {p} is {show(maxes[p])}, last element has {show(k)}')
            need(len(b) <= 2 * load, f'{why}: block {p} has {len(b)} elements, more than twice the load factor {load}')
            need(p == len(lists) - 1 or len(b) >= load >> 1, f'{why}: block {p} of {len(lists)} has {len(b)} elements, fewer than half the load factor {load}')
        flat = [v for b in lists for v in b]
        need(is_sorted(flat, kf), f'{why}: not in order')
        keys = getattr(sl, '_keys', None)
        if kf is not None and keys is not None:
            need([list(k) for k in keys] == [[kf(v) for v in b] for b in lists], f'{why}: cached keys differ from the keys of the values')
        if index:
            off = sl._offset
            need(off >= 0 and index[0] == n, f'{why}: positional index root {index[0]} for {n} elements')
            need(list(index[off:off + len(lists)]) == [len(b) for b in lists] and len(index) == off + len(lists), f'{why}: positional index leaves are wrong')
            for i in range(off):
                c = [index[j] if j < len(index) else 0 for j in (2 * i + 1, 2 * i + 2)]
                need(index[i] == sum(c), f'{why}: positional index node {i} is {index[i]}, children {c}')
    if load >= 4:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            _, e = call(sl._check)
        need(e is None, f'{why}: self-check raised {show(e)}')


# ------------------------------------------------------------------ arguments
class Env:
    """Decodes the arguments of a program; equal encodings give the same object."""

    def __init__(self, universe):
        self.u = universe
        self.cache = {}

    def val(self, r, uid):
        k = (r, uid)
        if k not in self.cache:
            self.cache[k] = mkval(self.u, r, uid)
        return self.cache[k]

    def dec(self, a, me=None):
        if isinstance(a, list):
            t = a[0]
            if t == 'v':
                return self.val(a[1], a[2])
            if t == 'fuse':
                return Fuse(mkval('int' if self.u == 'V' else self.u, a[1], 0), a[2])
            if t == 'L':
                return [self.dec(x, me) for x in a[1:]]
            if t == 'T':
                return tuple(self.dec(x, me) for x in a[1:])
            if t == 'I':
                return iter([self.dec(x, me) for x in a[1:]])
            if t == 'G':
                return (y for y in [self.dec(x, me) for x in a[1:]])
            if t == 'O':
                return Once([self.dec(x, me) for x in a[1:]])
            if t == 'K':
                return dict.fromkeys([self.dec(x, me) for x in a[1:]]).keys()
            if t == 'mitems':
                return me.items()
            if t == 'S':
                return {self.dec(x, me) for x in a[1:]}
            if t == 'F':
                return frozenset(self.dec(x, me) for x in a[1:])
            if t == 'D':
                return {self.dec(k, me): self.dec(v, me) for k, v in a[1:]}
            if t == 'P':
                return [(self.dec(k, me), self.dec(v, me)) for k, v in a[1:]]
            if t == 'PI':
                return Once([(self.dec(k, me), self.dec(v, me)) for k, v in a[1:]])
            if t == 'M':
                return Map({self.dec(k, me): self.dec(v, me) for k, v in a[1:]})
            if t == 'KW':
                return KW({self.dec(k, me): self.dec(v, me) for k, v in a[1:]})
            if t == 's':
                return slice(a[1], a[2], a[3])
            if t == 'me':
                return me
            if t == 'str':
                return a[1]
            raise ValueError(a)
        return a
