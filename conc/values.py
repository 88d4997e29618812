"""Values, keys and encodings used by the concrete runs."""
from collections.abc import Mapping


class V:
    """Ordered and compared by rank; uid tells equal ones apart."""
    __slots__ = ('rank', 'uid')

    def __init__(self, rank, uid):
        self.rank, self.uid = rank, uid

    def __eq__(self, o):
        return self.rank == o.rank if isinstance(o, V) else NotImplemented

    def __ne__(self, o):
        return self.rank != o.rank if isinstance(o, V) else NotImplemented

    def __lt__(self, o):
        return self.rank < o.rank if isinstance(o, V) else NotImplemented

    def __le__(self, o):
        return self.rank <= o.rank if isinstance(o, V) else NotImplemented

    def __gt__(self, o):
        return self.rank > o.rank if isinstance(o, V) else NotImplemented

    def __ge__(self, o):
        return self.rank >= o.rank if isinstance(o, V) else NotImplemented

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return f'V({self.rank},{self.uid})'

    def __reduce__(self):
        return (V, (self.rank, self.uid))


class Fuse:
    """A key or value whose ordering comparisons fail after `n` of them."""

    def __init__(self, rank, n):
        self.rank, self.n = rank, n

    def tick(self):
        if self.n <= 0:
            raise TypeError('cannot be ordered')
        self.n -= 1

    def _r(self, o):
        return o.rank if isinstance(o, (V, Fuse)) else o

    def __lt__(self, o):
        self.tick()
        return self.rank < self._r(o)

    def __gt__(self, o):
        self.tick()
        return self.rank > self._r(o)

    def __le__(self, o):
        self.tick()
        return self.rank <= self._r(o)

    def __ge__(self, o):
        self.tick()
        return self.rank >= self._r(o)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return hash(('fuse', self.rank))

    def __repr__(self):
        return f'Fuse({self.rank},{self.n})'


class Once:
    """An iterator that remembers what it was made from."""

    def __init__(self, xs):
        self.xs = list(xs)
        self.it = iter(self.xs)

    def __repr__(self):
        return f'iter({self.xs})'

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def items(a):
    return a.xs if isinstance(a, Once) else list(a)


class Map(Mapping):
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f'Map({self.d})'


class KW(dict):
    """Keyword arguments."""


def rank(x):
    return x.rank if isinstance(x, V) else int(x[1:]) if isinstance(x, str) else x


def k_div(x):
    return x if isinstance(x, Fuse) else rank(x) // 3


def k_neg(x):
    return x if isinstance(x, Fuse) else -rank(x)


def k_mod(x):
    return x if isinstance(x, Fuse) else rank(x) % 5


def k_const(x):
    return x if isinstance(x, Fuse) else 0


def k_same(x):
    return x


KEYS = {'div': k_div, 'neg': k_neg, 'mod': k_mod, 'const': k_const, 'same': k_same, None: None}


def mkval(universe, r, uid):
    if universe == 'V':
        return V(r, uid)
    if universe == 'mix':
        return [r, float(r), bool(r) if r in (0, 1) else r + 0.0][uid % 3]
    if universe == 'str':
        return f'k{r}'
    if universe == 'half':
        return r / 2
    return r


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (V, Fuse)) or isinstance(b, (V, Fuse)):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def same_seq(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
