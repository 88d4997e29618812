"""Symbolic executor for a subset of Python, run on the AST of /repo's files.

Every path of a function is executed once; each branch on an undetermined
condition is a *decision*, paths are enumerated by re-running the function
with longer decision prefixes.  Loops are cut at their head by invariants.
Anything outside the subset raises Unsupported: nothing is ever guessed.
"""
import ast
import time
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI
import solve


# ------------------------------------------------------------------ values
class Val:
    pass


class IntV(Val):
    kind = 'I'

    def __init__(self, t):
        self.t = IntVal(t) if isinstance(t, int) else t

    def __repr__(self):
        return f'Int({z3.simplify(self.t)})'


class KeyV(Val):
    """Result of the key function; only its rank is observable."""
    kind = 'K'

    def __init__(self, t):
        self.t = t


class BoolV(Val):
    def __init__(self, t):
        self.t = BoolVal(t) if isinstance(t, bool) else t

    def __repr__(self):
        return f'Bool({self.t})'


class NoneT(Val):
    def __repr__(self):
        return 'None'


NONE = NoneT()


class NotImplT(Val):
    pass


NOTIMPL = NotImplT()


class ElemV(Val):
    """Opaque Python value (element / key / mapped value)."""
    kind = 'V'

    def __init__(self, t, bad=False):
        self.t = t
        self.bad = bad         # comparing or hashing it raises TypeError

    def __repr__(self):
        return f'Elem({self.t})'


class StrV(Val):
    def __init__(self, parts):
        self.parts = parts if isinstance(parts, list) else [parts]


class FloatV(Val):
    """log2(m) of a positive integer m; only int() of it is understood."""

    def __init__(self, log2_of):
        self.log2_of = log2_of


class TupleV(Val):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'Tuple{self.items}'


class ListRef(Val):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f'List#{self.id}'


class SetRef(Val):
    def __init__(self, id):
        self.id = id


class DictRef(Val):
    def __init__(self, id):
        self.id = id


class ObjRef(Val):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f'Obj#{self.id}'


class IterRef(Val):
    """An iterator object."""

    def __init__(self, id):
        self.id = id


class RangeV(Val):
    def __init__(self, a, b, st):
        self.a, self.b, self.st = a, b, st


class SliceV(Val):
    def __init__(self, a, b, st):
        self.a, self.b, self.st = a, b, st


class PairsV(Val):
    """Abstract re-iterable of (key, value) pairs (a Mapping's items or a list
    of pairs)."""

    def __init__(self, ks, vs, oneshot=False):
        self.ks, self.vs = ks, vs


class BuiltinV(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<builtin {self.name}>'


class FuncV(Val):
    def __init__(self, node, module, closure, cls=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return f'<func {self.cls.name + "." if self.cls else ""}{self.name}>'


class BoundV(Val):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __repr__(self):
        return f'<bound {self.func} of {self.self_}>'


class KeyFuncV(Val):
    """The user's key function."""

    def __repr__(self):
        return '<key function>'


class ClassV(Val):
    def __init__(self, name, bases, members, module):
        self.name, self.bases, self.members, self.module = name, bases, members, module

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.members:
                return c.members[name]
        return None

    def builtin_bases(self):
        return [c.name for c in self.mro() if isinstance(c, BuiltinV)]

    def __repr__(self):
        return f'<class {self.name}>'


class CountV(Val):
    """(1 for ... if ...): only its sum is known."""
    def __init__(self, t):
        self.t = t


class PropV(Val):
    def __init__(self, f):
        self.f = f


class CMethV(Val):
    def __init__(self, f):
        self.f = f


class SMethV(Val):
    def __init__(self, f):
        self.f = f


class OpaqueV(Val):
    """A Python object about which nothing is known."""

    def __init__(self, desc='?', isa=None):
        self.desc = desc
        self.isa = isa or {}


class Poison(Val):
    """Value of a variable whose content is unknown after a loop havoc."""

    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------- heap objects
class ListObj:
    def __init__(self, elem, seq, shared=None):
        self.elem, self.seq = elem, seq
        self.shared = shared       # ((outer id, outer seq), ...) when inner lists are shared with other containers

    def copy(self):
        return ListObj(self.elem, self.seq, self.shared)


class InnerLoc:
    def __init__(self, outer, idx):
        self.outer, self.idx = outer, idx

    def copy(self):
        return InnerLoc(self.outer, self.idx)


class SetObj:
    def __init__(self, s):
        self.s = s

    def copy(self):
        return SetObj(self.s)


class DictObj:
    def __init__(self, m):
        self.m = m

    def copy(self):
        return DictObj(self.m)


class IterObj:
    def __init__(self, elem, seq, deps, elems=None):
        self.elem, self.seq, self.deps = elem, seq, deps
        self.elems = elems          # list of (elem, seq): tuples of parallel sequences
        self.used = False
        self.src = None             # item-wise description
        self.inner_iter = False     # items are iterators, not lists
        self.fresh_inner = False    # items are lists nobody else holds
        self.post = None            # effect of consuming it
        self.boolmap = None

    def copy(self):
        o = IterObj(self.elem, self.seq, self.deps, self.elems)
        o.__dict__.update(self.__dict__)
        return o


class InstObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.folded = False
        self.F = None              # folded view of a sorted list
        self.map = None            # content when the class derives from dict
        self.order = None
        self.fold_load = None
        self.meta = {}

    def copy(self):
        o = InstObj(self.cls)
        o.attrs = dict(self.attrs)
        o.folded, o.F, o.map, o.order, o.fold_load = self.folded, self.F, self.map, self.order, self.fold_load
        o.meta = dict(self.meta)
        return o


# ------------------------------------------------------------- control flow
class PyExc(Exception):
    def __init__(self, name, args=()):
        self.name, self.pargs = name, args
        super().__init__(name)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        ln = getattr(node, 'lineno', None)
        super().__init__(f'{msg}' + (f' (line {ln})' if ln else ''))


class Restart(Exception):
    def __init__(self, at=()):
        self.at = at


EXC_PARENTS = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'AssertionError': 'Exception',
    'StopIteration': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'Exception': 'BaseException', 'BaseException': None, 'OverflowError': 'ArithmeticError',
    'DeprecationWarning': 'Exception',
}


def exc_isa(name, parent):
    while name:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name)
    return False


class Frame:
    def __init__(self, func, env, module):
        self.func, self.env, self.module = func, env, module
        self.cls = func.cls if func else None


class Obligation:
    __slots__ = ('name', 'tags', 'facts', 'goal', 'line', 'path', 'mset')

    def __init__(self, name, tags, facts, goal, line, path):
        self.name, self.tags, self.facts, self.goal, self.line, self.path, self.mset = name, tags, facts, goal, line, path, None


class Module:
    def __init__(self, name):
        self.name = name
        self.env = {}


PY_BUILTINS = set('''len range reversed sorted list tuple iter next map zip isinstance issubclass callable hasattr getattr
 setattr super type object set frozenset dict slice sum all any min max abs int bool str repr print enumerate filter
 property classmethod staticmethod NotImplemented Exception BaseException hash id divmod vars'''.split()) | set(EXC_PARENTS)


STD = {}


def std_source():
    """(class, method) -> definition, of the library's _collections_abc."""
    if not STD:
        import _collections_abc as a
        text = open(a.__file__).read()
        STD['file'], STD['lines'], STD['defs'] = a.__file__, text.split('\n'), {}
        tree = ast.parse(text)
        for n in ast.walk(tree):
            n._mod = '_collections_abc'
        for c in tree.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and not f.decorator_list:
                        STD['defs'][c.name, f.name] = f
    return STD['defs']


class Engine:
    MAX_PATHS = 20000

    def __init__(self, repo='/repo/src/sortedcontainers'):
        self.repo = repo
        self.modules = {}
        self.mode = 'plain'
        self.ident = False          # set/dict layer: equal values identified
        self.root = None            # name of the function under verification
        self.contracts = {}
        self.inline = set()         # contract names to inline instead
        self.source_lines = {}
        self.spec = None
        self.reads = None
        self.runid = 0
        self.patience = 1           # multiplies the time limits of inline proofs
        self.share_failed = True    # a loop invariant refuted at one entry of a loop is not tried at its others
        self.expected = set()       # names of inline proofs that usually succeed
        self.sizes = True           # the block size bounds are part of the representation predicate
        self.no_contract = set()    # contracts whose own proof failed: inline
        self.uses = set()           # contracts relied upon
        self.root = None
        self.root_shape = None
        self.in_map = 0
        self.strdict = {}
        self.npaths = 0
        self.reach = []
        self.reset_all()

    # ------------------------------------------------------------ modules
    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        m = Module(modname)
        self.modules[modname] = m
        path = f'{self.repo}/{modname}.py'
        src = open(path).read()
        tree = ast.parse(src, path)
        self.source_lines[modname] = src.split('\n')
        for n in ast.walk(tree):
            n._mod = modname
        fr = Frame(None, m.env, m)
        for st in tree.body:
            self.exec_stmt(st, fr)
        return m

    # --------------------------------------------------------- exploration
    def reset_all(self):
        self.facts = []
        self.prefix = []
        self.decisions = []
        self.worklist = []
        self.obls = []
        self.counter = 0
        self.heap = {}
        self.nextid = 0
        self.loops = {}
        self.nofill = set()
        self.loop_failed = {}
        self.proofcache = {}
        self.keepalive = []
        self.uses = set()
        self.in_map = 0
        self.strdict = {}
        self.scouting = False
        self.inline_proofs = []
        self.quick = None
        self.frames = []
        self.depth = 0
        self.cur_line = None
        self.events = []
        self.new_after = True
        self.raise_note = None

    def begin_run(self, prefix):
        self.facts = []
        self.prefix = list(prefix)
        self.decisions = []
        self.counter = 0
        self.heap = {}
        self.nextid = 0
        self.frames = []
        self.depth = 0
        self.events = []
        self.blown = None
        self.post_tag = ()
        self.reads = None
        self.handling = []
        self.runid = getattr(self, 'runid', 0) + 1
        self.in_map = 0
        self.strdict = {}
        self.scouting = False
        self.quick = z3.SimpleSolver()
        self.quick.set('timeout', 300)

    def explore(self, fn):
        """fn(engine) executes one path."""
        self.worklist = [[]]
        self.npaths = 0
        self.obls = []
        self.reach = []
        restarts = 0
        while self.worklist:
            prefix = self.worklist.pop()
            self.begin_run(prefix)
            self.npaths += 1
            if self.npaths > self.MAX_PATHS:
                raise Unsupported('too many paths')
            try:
                fn(self)
            except PathEnd:
                pass
            except Restart as r:
                # something was learnt about a loop: redo the paths through it
                restarts += 1
                if restarts > 4000:
                    raise Unsupported('loop inference does not converge')
                at = tuple(r.at)
                k = len(at)
                self.worklist = [w for w in self.worklist if tuple(w[:k]) != at] + [list(at)]
                self.obls = [o for o in self.obls if o.path[:k] != at]
                self.reach = [r for r in self.reach if r[1][:k] != at]
                self.inline_proofs = [q for q in self.inline_proofs if q[3][:k] != at]
        return self.obls

    def reached(self, outcome):
        """A path got as far as comparing its outcome with the contract."""
        if not self.scouting:
            self.reach.append((outcome, tuple(self.decisions), list(self.facts)))

    @property
    def fresh_region(self):
        return len(self.decisions) >= len(self.prefix)

    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const(f'{name}!{self.counter}', sort)

    def fresh_int(self, name='n'):
        return self.fresh(name, L.I)

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.facts.append(f)
        if not _has_quant(f):
            self.quick.add(f)

    def decide(self, n, feasible=None):
        """Generic n-way decision; returns the chosen index."""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            opts = [k for k in range(n) if feasible is None or feasible(k)]
            if not opts:
                raise PathEnd()
            d = opts[0]
            for o in opts[1:]:
                self.worklist.append(self.decisions + [o])
        self.decisions.append(d)
        return d

    def quick_unsat(self, f):
        f = z3.simplify(f)
        if z3.is_false(f):
            return True
        if z3.is_true(f):
            return False
        return self.quick.check(f) == z3.unsat

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.decide(2, lambda k: not self.quick_unsat(c if k == 0 else Not(c)))
        f = c if d == 0 else Not(c)
        self.assume(f)
        return d == 0

    def possible(self, cond, what, full=True):
        """Fork on an exceptional condition, after trying to prove it impossible."""
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        if self.quick_unsat(c):
            return False
        if self.scouting:
            self.assume(Not(c))
            return False
        if full and self.proved(Not(c), f'no {what}'):
            self.assume(Not(c))
            return False
        return self.branch(c)

    def proved(self, goal, name, ms=1200):
        """Inline proof attempt (terms are hash-consed, so the identical
        question, asked again when a path prefix is re-executed, is a lookup)."""
        if self.scouting:
            return False
        key = (goal.get_id(), tuple(f.get_id() for f in self.facts))
        r = self.proofcache.get(key)
        if r is None:
            # proofs that are expected to succeed get more time; this is a hint and decides nothing
            r = solve.prove(self.facts, goal, ms=ms * self.patience * (3 if name in self.expected else 1), portfolio=False)
            self.proofcache[key] = r
            self.keepalive.append((goal, list(self.facts)))
        if r.ok and self.fresh_region:
            self.inline_proofs.append((name, self.cur_line, r, tuple(self.decisions)))
        return r.ok

    def oblige(self, name, goal, tags=(), assume=True):
        if self.fresh_region:
            tags = tuple(tags) + tuple(t for t in self.post_tag if t not in tags)
            self.obls.append(Obligation(name, tuple(tags), list(self.facts), goal, self.cur_line, tuple(self.decisions)))
        if assume:
            self.assume(goal)

    # ------------------------------------------------------------ heap
    def alloc(self, obj):
        self.nextid += 1
        self.heap[self.nextid] = obj
        return self.nextid

    def new_list(self, elem, seq):
        return ListRef(self.alloc(ListObj(elem, seq)))

    def theory(self, elem):
        return L.SEQ_OF_ELEM[elem]

    def lst(self, ref):
        """(elem, seq) of a list reference."""
        o = self.heap[ref.id]
        if self.reads is not None:
            oid = o.outer if isinstance(o, InnerLoc) else ref.id
            if isinstance(self.heap[oid], ListObj):
                self.reads.append(('list', oid, self.heap[oid].seq))
        if isinstance(o, InnerLoc):
            outer = self.heap[o.outer]
            if isinstance(outer, Poison) or isinstance(o.idx, Poison):
                raise Unsupported('stale inner list handle')
            T = self.theory(outer.elem)
            self.check_shared(outer)
            return outer.elem[1], T.AT(outer.seq, o.idx)
        if isinstance(o, Poison):
            raise Unsupported(f'use of havocked list: {o.why}')
        self.check_shared(o)
        return o.elem, o.seq

    def check_shared(self, o):
        for sid, sq in o.shared or ():
            src = self.heap[sid]
            if not (isinstance(src, ListObj) and src.seq.eq(sq)):
                raise Unsupported('read of a shared bucket list after its source changed')

    def seq(self, ref):
        return self.lst(ref)[1]

    def set_seq(self, ref, seq, elem=None):
        o = self.heap[ref.id]
        if isinstance(o, InnerLoc):
            outer = self.heap[o.outer]
            if outer.shared:
                raise Unsupported('mutation through a shared bucket list')
            T = self.theory(outer.elem)
            outer.seq = T.UPD(outer.seq, o.idx, seq)
            return
        if isinstance(o, Poison):
            raise Unsupported(f'use of havocked list: {o.why}')
        if o.shared:
            raise Unsupported('mutation of a shared bucket list')
        o.seq = seq
        if elem is not None:
            o.elem = elem

    def retype(self, ref, elem):
        o = self.heap[ref.id]
        if isinstance(o, ListObj) and o.elem is None:
            o.elem = elem
            o.seq = self.theory(elem).emp
        return o

    def nested(self, elem):
        return elem in ('LV', 'LI', 'LK')

    def elem_of(self, v):
        if isinstance(v, ElemV):
            return 'V', v.t
        if isinstance(v, KeyV):
            return 'K', v.t
        if isinstance(v, IntV):
            return 'I', v.t
        if isinstance(v, ListRef):
            e, s = self.lst(v)
            if e is None:
                raise Unsupported('nested untyped empty list')
            return 'L' + e, s
        raise Unsupported(f'list element {v!r}')

    def wrap(self, elem, t):
        if elem == 'V':
            return ElemV(t)
        if elem == 'K':
            return KeyV(t)
        if elem == 'I':
            return IntV(t)
        if self.nested(elem):
            return self.new_list(elem[1], t)
        raise Unsupported(f'wrap {elem}')

    def shift_handles(self, outer_id, fn):
        """Re-index handles after a structural change; fn(idx) -> new idx or None (detached)."""
        for hid, o in list(self.heap.items()):
            if isinstance(o, InnerLoc) and o.outer == outer_id:
                ni = fn(o.idx)
                if ni is None:
                    outer = self.heap[outer_id]
                    T = self.theory(outer.elem)
                    self.heap[hid] = ListObj(outer.elem[1], T.AT(outer.seq, o.idx))
                else:
                    self.heap[hid] = InnerLoc(outer_id, ni)

    def adopt(self, ref, outer_id, idx):
        """The list `ref` becomes element idx of the nested list."""
        o = self.heap[ref.id]
        if isinstance(o, InnerLoc) or (isinstance(o, ListObj) and self.nested(o.elem)):
            raise Unsupported('a bucket stored in two places')
        self.heap[ref.id] = InnerLoc(outer_id, idx)

    def snapshot(self):
        return {k: (o.copy() if hasattr(o, 'copy') else o) for k, o in self.heap.items()}

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        if hasattr(st, 'lineno') and fr.func is not None:
            self.cur_line = st.lineno
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__}', st)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split('.')[0]] = BuiltinV(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, fr):
        if st.level:
            m = self.load(st.module)
            for a in st.names:
                fr.env[a.asname or a.name] = m.env[a.name]
            return
        for a in st.names:
            fr.env[a.asname or a.name] = BuiltinV(f'{st.module}.{a.name}')

    def s_Global(self, st, fr):
        raise Unsupported('global', st)

    def s_Nonlocal(self, st, fr):
        raise Unsupported('nonlocal', st)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            if isinstance(dv, BuiltinV) and dv.name == 'property':
                v = PropV(v)
            elif isinstance(dv, BuiltinV) and dv.name == 'classmethod':
                v = CMethV(v)
            elif isinstance(dv, BuiltinV) and dv.name == 'staticmethod':
                v = SMethV(v)
            elif isinstance(dv, OpaqueV) and dv.desc == 'recursive_repr-decorator':
                pass
            else:
                v = OpaqueV('decorated function ' + st.name)
        fr.env[self.mangle(st.name, fr)] = v

    def make_func(self, st, fr):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = fr if fr.func is not None else None
        cls = getattr(fr, 'building', None) or (fr.func.cls if fr.func else None)
        f = FuncV(st, fr.module, closure, cls, defaults, kwd)
        if getattr(fr, 'building', None) is not None:
            f.closure = None
        return f

    def s_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        c = ClassV(st.name, bases, {}, fr.module)
        if getattr(fr, 'building', None) is not None:
            c.outer = fr.building
        cf = Frame(None, c.members, fr.module)
        cf.building = c
        cf.outer_env = fr.env
        cf.cls = c
        for b in st.body:
            self.exec_stmt(b, cf)
        fr.env[st.name] = c

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value else NONE)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), fr)
            v = self.binop(type(st.op).__name__, cur, self.eval(st.value, fr), st, inplace=True)
            self.assign(st.target, v, fr)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, fr)
            name = self.mangle(st.target.attr, fr)
            cur = self.getattr(o, name, st)
            v = self.binop(type(st.op).__name__, cur, self.eval(st.value, fr), st, inplace=True)
            self.setattr(o, name, v, st)
        elif isinstance(st.target, ast.Subscript):
            o = self.eval(st.target.value, fr)
            ix = self.eval(st.target.slice, fr)
            cur = self.getitem(o, ix, st)
            v = self.binop(type(st.op).__name__, cur, self.eval(st.value, fr), st, inplace=True)
            if isinstance(cur, ListRef) and isinstance(v, ListRef) and cur.id == v.id:
                return
            self.setitem(o, ix, v, st)
        else:
            raise Unsupported('augmented assignment target', st)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[self.mangle(t.id, fr)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, TupleV):
                raise Unsupported('unpacking a non-tuple', t)
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(t.elts) != len(v.items):
                raise Unsupported('starred unpacking', t)
            for x, y in zip(t.elts, v.items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v, t)
        else:
            raise Unsupported('assignment target', t)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval(t.slice, fr), st)
            elif isinstance(t, ast.Name):
                fr.env.pop(self.mangle(t.id, fr), None)
            else:
                raise Unsupported('del target', st)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), st):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Assert(self, st, fr):
        v = self.eval(st.test, fr)
        if isinstance(v, BoolV):
            if self.possible(Not(v.t), 'assertion failure'):
                raise PyExc('AssertionError')
        elif not self.truth(v, st):
            raise PyExc('AssertionError')

    def s_Raise(self, st, fr):
        if st.exc is None:
            if getattr(self, 'handling', None):
                raise self.handling[-1]
            raise Unsupported('bare raise', st)
        v = self.eval(st.exc, fr)
        if isinstance(v, BuiltinV) and v.name in EXC_PARENTS:
            raise PyExc(v.name)
        if isinstance(v, OpaqueV) and v.desc.startswith('exc:'):
            raise PyExc(v.desc[4:])
        raise Unsupported('raise of unknown exception', st)

    def s_Try(self, st, fr):
        if st.finalbody:
            try:
                self._try(st, fr)
            except (PyExc, ReturnEx, BreakEx, ContinueEx):
                self.exec_block(st.finalbody, fr)
                raise
            self.exec_block(st.finalbody, fr)
        else:
            self._try(st, fr)

    def _try(self, st, fr):
        try:
            self.exec_block(st.body, fr)
        except PyExc as e:
            for h in st.handlers:
                names = None
                if h.type is not None:
                    tv = self.eval(h.type, fr)
                    tvs = tv.items if isinstance(tv, TupleV) else [tv]
                    names = [x.name for x in tvs if isinstance(x, BuiltinV)]
                    if len(names) != len(tvs):
                        raise Unsupported('except type', h)
                if names is None or any(exc_isa(e.name, n) for n in names):
                    if h.name:
                        fr.env[h.name] = OpaqueV('exc:' + e.name)
                    self.handling = getattr(self, 'handling', []) + [e]
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.handling = self.handling[:-1]
                    return
            raise
        else:
            self.exec_block(st.orelse, fr)

    def s_With(self, st, fr):
        raise Unsupported('with', st)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    # ------------------------------------------------------------ loops
    def s_While(self, st, fr):
        def body():
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
        self.loop(st, fr, cond=lambda: self.truth(self.eval(st.test, fr), st), body=body,
                  orelse=lambda: self.exec_block(st.orelse, fr), targets=None, src=None)

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        self.for_over(st, fr, it, lambda v: self.assign(st.target, v, fr),
                      lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr))

    def for_over(self, st, fr, it, bind, body, orelse):
        if isinstance(it, TupleV):
            try:
                for x in it.items:
                    bind(x)
                    try:
                        body()
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            orelse()
            return
        src = self.iter_source(it, st)
        n = src.length
        # small concrete lengths are unrolled
        cn = z3.simplify(n)
        if z3.is_int_value(cn) and cn.as_long() <= 4:
            try:
                for q in range(cn.as_long()):
                    bind(src.item(IntVal(q)))
                    try:
                        body()
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            orelse()
            return
        if isinstance(st, ast.For) and (self.extend_loop(st, fr, src) or self.fill_loop(st, fr, src)):
            return
        hidden = f'@i{st.lineno}_{st.col_offset}'
        fr.env[hidden] = IntV(0)

        def cond():
            i = fr.env[hidden].t
            if not self.branch(i < n):
                return False
            src.check_fresh()
            item = src.item(i)
            if isinstance(item, IntV) and src.range is not None:
                self.assume(L.tn(item.t))        # always true; lets the nodes of an index tree be looked at
            bind(item)
            return True

        def bodyf():
            try:
                body()
            except ContinueEx:
                pass
            i = fr.env[hidden].t
            fr.env[hidden] = IntV(z3.simplify(i + 1))
        self.loop(st, fr, cond, bodyf, orelse, targets=hidden, src=src)
        fr.env.pop(hidden, None)

    def extend_loop(self, st, fr, src):
        """`for x in it: out.extend(x)` (or `out += x`) extends `out` once, by
        the concatenation of what `it` yields."""
        body = [b for b in st.body if not isinstance(b, ast.Pass) and not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if st.orelse or self.in_map or len(body) != 1 or not isinstance(st.target, ast.Name) or src.elem not in ('LV', 'LI') or src.seq is None:
            return False
        b, x = body[0], st.target.id
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and len(b.value.args) == 1 and not b.value.keywords:
            f, arg = b.value.func, b.value.args[0]
            if not (isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and f.attr == 'extend'):
                return False
        elif isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name):
            f, arg = ast.copy_location(ast.Name(b.target.id, ast.Load()), b), b.value
        else:
            return False
        if not (isinstance(arg, ast.Name) and arg.id == x) or any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(f)):
            return False
        if fr.func is None or self.read_later(st, fr, {self.mangle(x, fr)}):
            return False
        v = self.eval(f, fr)
        if isinstance(b, ast.Expr):
            if not (isinstance(v, BoundV) and isinstance(v.func, BuiltinV) and v.func.name == 'list.extend'):
                return False
            v = v.self_
        if not isinstance(v, ListRef) or isinstance(self.heap[v.id], InnerLoc) or any(d[0] == 'list' and d[1] == v.id for d in src.deps):
            return False
        src.check_fresh()
        self.list_extend(v, self.flatten_source(src, st), st)
        fr.env[self.mangle(x, fr)] = Poison('a variable of a finished loop')
        return True

    def fill_loop(self, st, fr, src):
        """A loop that does nothing but append to lists it does not look at is
        the same as extending those lists, one after the other, from the items
        computed by its body."""
        if st.orelse or self.in_map or id(st) in self.nofill:
            return False
        local = self.assigned_names(st.target, fr)
        recv = []
        for b in st.body:
            if isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets):
                local |= {self.mangle(t.id, fr) for t in b.targets}
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and len(b.value.args) == 1 and not b.value.keywords \
                    and not isinstance(b.value.args[0], ast.Starred):
                f = b.value.func
                if not (isinstance(f, ast.Name) or isinstance(f, ast.Attribute) and f.attr == 'append'):
                    return False
                recv.append(f)
            elif not isinstance(b, ast.Pass) and not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                return False
        if not recv or any(isinstance(n, ast.Name) and self.mangle(n.id, fr) in local for f in recv for n in ast.walk(f)):
            return False
        if fr.func is not None and self.read_later(st, fr, local):
            return False        # a variable of the loop is used after it
        at = list(self.decisions)
        try:
            return self.fill_run(st, fr, src, recv, local)
        except Unsupported:
            self.nofill.add(id(st))
            raise Restart(at)

    def read_later(self, st, fr, names):
        """Is one of the names read after the loop (other than as the own
        variable of a comprehension)?"""
        def walk(n, names):
            if n is st or not names:
                return False
            if isinstance(n, ast.Name):
                return isinstance(n.ctx, ast.Load) and self.mangle(n.id, fr) in names and n.lineno >= st.lineno
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                own = set()
                for g in n.generators:
                    own |= self.assigned_names(g.target, fr)
                if walk(n.generators[0].iter, names):
                    return True
                names = names - own
            return any(walk(c, names) for c in ast.iter_child_nodes(n))
        return walk(fr.func.node, names)

    def fill_run(self, st, fr, src, recv, local):
        lists = []
        for f in recv:
            v = self.eval(f, fr)
            if not (isinstance(v, BoundV) and isinstance(v.func, BuiltinV) and v.func.name == 'list.append' and isinstance(v.self_, ListRef)):
                return False
            lists.append(v.self_)
        if len({l.id for l in lists}) != len(lists) or any(isinstance(self.heap[l.id], InnerLoc) for l in lists):
            return False
        heap0 = set(self.heap)
        fresh = []

        def item(v):
            sub = Frame(FuncV(fr.func.node if fr.func else st, fr.module, fr, fr.cls), {n: Poison('a value from another turn of the loop') for n in local}, fr.module)
            self.assign(st.target, v, sub)
            out = []
            for b in st.body:
                if isinstance(b, ast.Assign):
                    self.exec_stmt(b, sub)
                elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call):
                    out.append(self.eval(b.value.args[0], sub))
            ids = [x.id for x in out if isinstance(x, ListRef)]
            if len(set(ids)) != len(ids) or any(i in heap0 for i in ids):
                raise Unsupported('a list stored in two places', st)
            fresh[:] = [isinstance(x, ListRef) for x in out]
            return TupleV(out)
        it = self.map_source(item, src, st)
        io = self.heap[it.id]
        src.check_fresh()
        if io.elems is None:        # no items at all
            return True
        mine = {l.id for l in lists}
        held = {v.id for o in self.heap.values() if isinstance(o, InstObj) for v in o.attrs.values() if isinstance(v, ListRef)}
        if io.post is not None and mine & held or any(d[0] == 'list' and d[1] in mine for d in io.deps):
            raise Unsupported('a loop that reads what it fills', st)
        if io.post is not None:
            io.post()
        for l, (ek, R), fresh_ in zip(lists, io.elems, fresh):
            part = IterObj(ek, R, list(io.deps))
            part.fresh_inner = fresh_
            self.list_extend(l, IterRef(self.alloc(part)), st)
        for n in local:
            fr.env[n] = Poison('a variable of a finished loop')
        return True

    def assigned_names(self, node, fr):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(self.mangle(n.id, fr))
        return out

    def loop(self, st, fr, cond, body, orelse, targets, src):
        key = (id(st), tuple(self.decisions))
        info = self.loops.get(key)
        if info is None:
            info = self.loops[key] = LoopInfo()
        names = self.assigned_names(st, fr)
        if targets:
            names.add(targets)
        ctx = LoopCtx(self, st, fr, src, targets, names, info)
        # fold objects that the body changes as a whole
        for oid in sorted(info.folds):
            self.fold_obj(ObjRef(oid), 'loop entry')
        ctx.pre_env = dict(fr.env)
        ctx.pre_heap = self.snapshot()
        ctx.line = self.cur_line
        scouting = not info.scouted
        if scouting:
            info.cands, info.measures = [], []
        elif info.cands is None:
            info.cands = self.loop_candidates(ctx)
            info.measures = self.loop_measures(ctx)
            if self.share_failed:
                # what failed where this loop was entered before is not tried again
                lost = self.loop_failed.setdefault(id(st), set())
                info.dropped += [(c.name, 'elsewhere') for c in info.cands if c.name in lost]
                info.cands = [c for c in info.cands if c.name not in lost]
                info.measures = [m for m in info.measures if 'measure ' + m.name not in lost]
        # entry
        bad = []
        gone = {n for n, _ in info.dropped}
        for cnd in list(info.cands):
            if any(x in gone for x in cnd.needs):
                info.cands.remove(cnd)
                continue
            try:
                f = cnd.fn(ctx)
            except CandError:
                info.cands.remove(cnd)
                gone.add(cnd.name)
                continue
            if not cnd.free and not self.proved(f, f'loop invariant {cnd.name} holds initially', ms=1000):
                info.dropped.append((cnd.name, 'init'))
                gone.add(cnd.name)
                bad.append(cnd)
        if bad:
            info.cands = [c for c in info.cands if c not in bad]
            self.loop_failed.setdefault(id(st), set()).update(c.name for c in bad)
        # havoc
        for hid, elem in info.types.items():
            self.retype(ListRef(hid), elem)
        for nm in sorted(names):
            if nm in fr.env:
                fr.env[nm] = self.havoc_val(fr.env[nm], nm)
        for hid in sorted(info.mods, key=str):
            if isinstance(hid, tuple) and hid[0] in info.folds:
                continue            # behind the abstraction, havocked with it
            self.havoc_heap(hid)
        for oid in sorted(info.folds):
            self.havoc_folded(oid)
        if targets:
            self.assume(And(0 <= fr.env[targets].t, fr.env[targets].t <= src.length))
        for cnd in list(info.cands):
            try:
                f = cnd.fn(ctx)
            except CandError:
                info.cands.remove(cnd)
                continue
            self.assume(f)
            ctx.current.append(f)
        for f in self.loop_hints(ctx):
            self.assume(f)
        # choose: one iteration, or leave the loop
        d = self.decide(2)
        if d == 1:
            if scouting:
                # every path through the body has been run by now
                info.scouted, info.cands = True, None
                raise Restart(key[1])
            if cond():
                raise PathEnd()
            orelse()
            return
        if not cond():
            raise PathEnd()
        head = self.snapshot()
        head_env = dict(fr.env)
        meas0 = []
        for m in info.measures:
            try:
                meas0.append((m, m.fn(ctx)))
            except CandError:
                pass
        if scouting:
            self.scouting = True
            self.touched = info.touched
            try:
                body()
                self.note_mods(info, head, key)
            except BreakEx:
                self.note_mods(info, head, key)
            except Unsupported:
                pass
            raise PathEnd()
        try:
            body()
        except BreakEx:
            self.note_mods(info, head, key)
            return
        self.note_mods(info, head, key)
        for oid in sorted(info.folds):
            self.fold_obj(ObjRef(oid), 'loop back edge')
        for nm in list(fr.env):
            v = fr.env[nm]
            if isinstance(v, Poison):
                continue
        for f in self.loop_hints(ctx):
            self.assume(f)
        ctx.head_env = head_env
        bad = []
        gone = {n for n, _ in info.dropped}
        for cnd in list(info.cands):
            if cnd.free:
                continue
            if any(x in gone for x in cnd.needs):
                bad.append(cnd)
                continue
            try:
                f = cnd.fn(ctx)
            except CandError:
                f = BoolVal(False)
            if not self.proved(f, f'loop invariant {cnd.name} is preserved', ms=cnd.ms):
                info.dropped.append((cnd.name, 'preserve'))
                gone.add(cnd.name)
                bad.append(cnd)
                continue
            self.assume(f)
        if bad:
            info.cands = [c for c in info.cands if c not in bad]
            self.loop_failed.setdefault(id(st), set()).update(c.name for c in bad)
            raise Restart(key[1])
        if targets is None:
            # a while loop needs one decreasing measure (for loops end with their iterator)
            # the same measure has to work on every path through the body
            done, failed = False, []
            for m, m0 in meas0:
                try:
                    m1 = m.fn(ctx)
                except CandError:
                    failed.append(m)
                    continue
                if self.proved(And(m0 >= 0, m1 < m0), f'loop measure {m.name} decreases', ms=500):
                    done = True
                    break
                failed.append(m)
            if failed and done:
                info.measures = [m for m in info.measures if m not in failed]
                self.loop_failed.setdefault(id(st), set()).update('measure ' + m.name for m in failed)
                if info.measured:
                    info.measured = False
                    raise Restart(key[1])
            info.measured = info.measured or done
            if not done:
                self.oblige('loop terminates', BoolVal(False), ('term',))
        raise PathEnd()

    def loop_candidates(self, ctx):
        return self.spec.loop_candidates(ctx) if self.spec else []

    def loop_measures(self, ctx):
        return self.spec.loop_measures(ctx) if self.spec else []

    def loop_hints(self, ctx):
        return self.spec.loop_hints(ctx) if self.spec else []

    def note_mods(self, info, head, key):
        """Record which heap objects the body changed; restart with them havocked."""
        new = False
        for hid, o in head.items():
            cur = self.heap.get(hid)
            if isinstance(o, ListObj):
                if isinstance(cur, ListObj) and (cur.seq is o.seq or None not in (cur.seq, o.seq) and cur.seq.eq(o.seq)):
                    continue
                if o.elem is None and isinstance(cur, ListObj) and cur.elem is not None and hid not in info.types:
                    info.types[hid] = cur.elem
                if hid not in info.mods:
                    if hid in info.inst_lists(self, head):
                        continue
                    info.mods.add(hid)
                    new = True
            elif isinstance(o, (SetObj,)):
                if not cur.s.eq(o.s) and hid not in info.mods:
                    info.mods.add(hid)
                    new = True
            elif isinstance(o, DictObj):
                if not cur.m.eq(o.m) and hid not in info.mods:
                    info.mods.add(hid)
                    new = True
            elif isinstance(o, IterObj):
                if cur.used != o.used:
                    raise Unsupported('iterator consumed inside a loop')
            elif isinstance(o, InstObj):
                if cur.folded and not o.folded or (o.folded and cur.folded and not cur.F.eq(o.F)) or (o.folded and not cur.folded and cur.meta.get('dirty')):
                    if hid not in info.folds:
                        info.folds.add(hid)
                        new = True
                    continue
                if hid in info.folds:
                    continue
                if o.map is not None and not o.map.eq(cur.map) and (hid, '@map') not in info.mods:
                    info.mods.add((hid, '@map'))
                    new = True
                for a, v in o.attrs.items():
                    c = cur.attrs.get(a)
                    if not same_val(v, c) and (hid, a) not in info.mods:
                        info.mods.add((hid, a))
                        new = True
                if set(cur.attrs) - set(o.attrs):
                    raise Unsupported('attribute created inside a loop')
        if new:
            info.cands = None
            raise Restart(key[1])

    def havoc_val(self, v, nm):
        if isinstance(v, IntV):
            return IntV(self.fresh_int(nm))
        if isinstance(v, KeyV):
            return KeyV(self.fresh(nm, L.I))
        if isinstance(v, BoolV):
            return BoolV(self.fresh(nm, L.B))
        if isinstance(v, ElemV):
            return ElemV(self.fresh(nm, L.V))
        if isinstance(v, NoneT):
            return Poison(f'{nm} after loop')
        return Poison(f'{nm} after loop')

    def havoc_heap(self, hid):
        if isinstance(hid, tuple):
            o = self.heap[hid[0]]
            if hid[1] == '@map':
                o.map = self.fresh('map', L.Map)
                return
            o.attrs[hid[1]] = self.havoc_val(o.attrs[hid[1]], hid[1])
            return
        o = self.heap[hid]
        if isinstance(o, ListObj):
            if o.elem is None:
                raise Unsupported('untyped list modified in a loop')
            if self.nested(o.elem):
                self.poison_handles(hid)
            if o.shared:
                raise Unsupported('loop changes a list that shares buckets')
            o.seq = self.fresh('lst', o.seq.sort())
        elif isinstance(o, SetObj):
            o.s = self.fresh('set', L.Set)
        elif isinstance(o, DictObj):
            o.m = self.fresh('map', L.Map)

    def poison_handles(self, outer_id):
        for h, o in list(self.heap.items()):
            if isinstance(o, InnerLoc) and o.outer == outer_id:
                self.heap[h] = Poison('inner list handle after loop')

    def havoc_folded(self, oid):
        o = self.heap[oid]
        o.F = self.fresh('F', L.SVs)
        self.assume(L.sortedV(o.F))
        o.folded = True

    # ------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = getattr(fr, 'building', None) or fr.cls
            if c is not None:
                return f'_{c.name.lstrip("_")}{name}'
        return name

    def e_Name(self, n, fr):
        name = self.mangle(n.id, fr)
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'use of {v.why}', n)
                if self.reads is not None and f is not fr:
                    self.reads.append(('env', f, name, v))
                return v
            if getattr(f, 'building', None) is not None and name in getattr(f, 'outer_env', {}):
                return f.outer_env[name]
            f = f.func.closure if f.func is not None else None
        if name in fr.module.env:
            return fr.module.env[name]
        if name in PY_BUILTINS:
            if name == 'NotImplemented':
                return NOTIMPL
            return BuiltinV(name)
        if name == '__name__':
            return StrV(fr.module.name)
        raise Unsupported(f'name {name}', n)

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}', n)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, int):
            return IntV(v)
        if isinstance(v, str):
            return StrV([v])
        if v is Ellipsis:
            return OpaqueV('...')
        return OpaqueV(f'const {v!r}')

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                conv = chr(p.conversion) if p.conversion != -1 else ''
                if isinstance(v, StrV) and conv == '':
                    parts.extend(v.parts)
                else:
                    parts.append((conv, v))
        return StrV(parts)

    def e_Tuple(self, n, fr):
        return TupleV(self.eval_args(n.elts, fr))

    def eval_args(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                if isinstance(v, TupleV):
                    out.extend(v.items)
                else:
                    out.append(StarArg(v))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        items = self.eval_args(n.elts, fr)
        return self.list_of(items)

    def list_of(self, items):
        if not items:
            return self.new_list(None, None)
        kinds = [self.elem_of(x)[0] for x in items]
        if len(set(kinds)) != 1:
            raise Unsupported('mixed list literal')
        e = kinds[0]
        T = self.theory(e)
        s = T.emp
        ref = self.new_list(e, s)
        for q, x in enumerate(items):
            t = self.elem_of(x)[1]
            s = T.CAT(s, T.unit(t))
            if self.nested(e):
                self.adopt(x, ref.id, IntVal(q))
        self.heap[ref.id].seq = s
        return ref

    def e_Set(self, n, fr):
        s = L.semp
        for x in self.eval_args(n.elts, fr):
            s = L.sadd(s, x.t)
        return SetRef(self.alloc(SetObj(s)))

    def e_Dict(self, n, fr):
        m = L.memp
        for k_, v_ in zip(n.keys, n.values):
            if k_ is None:
                x = self.to_map(self.eval(v_, fr), n)
                m = x if m.eq(L.memp) else m if x.eq(L.memp) else L.mmerge(m, x)
                continue
            kk, vv = self.eval(k_, fr), self.eval(v_, fr)
            self.hashable(kk)
            m = L.mput(m, self.elem_of(kk)[1], NONE_V if isinstance(vv, NoneT) else self.elem_of(vv)[1])
        return DictRef(self.alloc(DictObj(m)))

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), self.mangle(n.attr, fr), n)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval(n.slice, fr), n)

    def e_Slice(self, n, fr):
        g = lambda e: self.eval(e, fr) if e is not None else NONE
        return SliceV(g(n.lower), g(n.upper), g(n.step))

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n.test, fr), n):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        v = None
        if self.in_map and all(isinstance(x, (ast.BoolOp, ast.And, ast.Or, ast.Compare, ast.cmpop, ast.Name, ast.Load, ast.Constant, ast.UnaryOp, ast.Not)) for x in ast.walk(n)):
            # nothing but comparisons: no branching is needed
            vals = [self.eval(e, fr) for e in n.values]
            if all(isinstance(x, BoolV) for x in vals):
                return BoolV((And if isinstance(n.op, ast.And) else Or)(*[x.t for x in vals]))
        for q, e in enumerate(n.values):
            v = self.eval(e, fr)
            if q == len(n.values) - 1:
                return v
            tr = self.truth(v, n)
            if isinstance(n.op, ast.And) and not tr:
                return v
            if isinstance(n.op, ast.Or) and tr:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, BoolV):
                return BoolV(Not(v.t))
            return BoolV(not self.truth(v, n))
        if isinstance(v, IntV):
            if isinstance(n.op, ast.USub):
                return IntV(z3.simplify(-v.t))
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Invert):
                return IntV(-v.t - 1)
        raise Unsupported('unary operator', n)

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op).__name__, self.eval(n.left, fr), self.eval(n.right, fr), n)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, fr)
            r = self.compare(type(op).__name__, left, right, n)
            if res is None:
                res = r
            elif isinstance(res, BoolV) and isinstance(r, BoolV):
                res = BoolV(And(res.t, r.t))
            else:
                raise Unsupported('comparison chain', n)
            left = right
        return res

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_Starred(self, n, fr):
        raise Unsupported('starred', n)

    def e_ListComp(self, n, fr):
        src = self.comp(n, fr)
        return self.consume_to_list(src, n)

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr)

    def e_SetComp(self, n, fr):
        return SetRef(self.alloc(SetObj(self.to_set(self.comp(n, fr), n))))

    def e_DictComp(self, n, fr):
        gen = n.generators
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        g = ast.copy_location(ast.GeneratorExp(pair, gen), n)
        return DictRef(self.alloc(DictObj(self.to_map(self.comp(g, fr), n))))

    def e_Await(self, n, fr):
        raise Unsupported('await', n)

    def e_Yield(self, n, fr):
        raise Unsupported('yield', n)

    e_YieldFrom = e_Yield

    # comprehension -> iterator value
    def comp(self, n, fr):
        if len(n.generators) == 2 and not n.generators[0].ifs and not n.generators[1].ifs:
            g0, g1 = n.generators
            # (x for sub in lists for x in sub)  ==  concatenation
            if isinstance(g0.target, ast.Name) and isinstance(g1.iter, ast.Name) and g1.iter.id == g0.target.id \
               and isinstance(g1.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g1.target.id:
                src = self.iter_source(self.eval(g0.iter, fr), n)
                return self.flatten_source(src, n)
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension', n)
        g = n.generators[0]
        if g.is_async:
            raise Unsupported('async comprehension', n)
        it = self.eval(g.iter, fr)
        sub = Frame(FuncV(n, fr.module, fr, fr.cls), {}, fr.module)
        if g.ifs:
            return self.comp_filter(n, g, it, sub)
        if isinstance(it, TupleV):
            vals = []
            for x in it.items:
                self.assign(g.target, x, sub)
                vals.append(self.eval(n.elt, sub))
            return TupleV(vals)

        def elt(v):
            self.assign(g.target, v, sub)
            return self.eval(n.elt, sub)
        return self.map_source(elt, self.iter_source(it, n), n)

    def comp_filter(self, n, g, it, sub):
        """(1 for v in it if v == x): only how many there are is of use."""
        if not isinstance(n, ast.GeneratorExp) or not isinstance(n.elt, ast.Constant) or type(n.elt.value) is not int or n.elt.value != 1 or isinstance(it, TupleV):
            raise Unsupported('filtered comprehension', n)
        src = self.iter_source(it, n)
        cond = g.ifs[0] if len(g.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), list(g.ifs)), n)
        found = []
        names = {x.id for x in ast.walk(cond) if isinstance(x, ast.Name)}

        def known(fr):
            while fr is not None:
                for nm, v in fr.env.items():
                    if nm in names:
                        yield v
                fr = fr.func.closure if fr.func is not None else None

        def elt(v):
            self.assign(g.target, v, sub)
            r = self.eval(cond, sub)
            if not isinstance(r, BoolV):
                raise Unsupported('filtered comprehension', n)
            key = v.items[0] if isinstance(v, TupleV) and len(v.items) == 2 else v
            others = [x for x in known(sub.func.closure) if x is not v]
            for x in others:
                if isinstance(v, ElemV) and isinstance(x, ElemV):
                    if self.implied(r.t == (L.eqc(v.t) == L.eqc(x.t)), 'what is counted'):
                        found.append((x.t, z3.BoolVal(True)))
                        break
                elif isinstance(key, ElemV) and isinstance(x, TupleV) and len(x.items) == 2 and all(isinstance(y, ElemV) for y in list(x.items) + list(v.items)):
                    k, w = x.items
                    qs = [q for e, q in getattr(src, 'parts', []) if e == 'V' and q is not None]
                    if len(qs) == 2 and qs[1].decl().eq(L.mvals) and qs[1].arg(1).eq(qs[0]):
                        rest = L.eqc(L.val(qs[1].arg(0), k.t)) == L.eqc(w.t)
                    else:
                        rest = L.eqc(z3.substitute(v.items[1].t, (key.t, k.t))) == L.eqc(w.t)
                    if self.implied(r.t == And(L.eqc(key.t) == L.eqc(k.t), rest), 'what is counted'):
                        found.append((k.t, rest))
                        break
            return r
        self.map_source(elt, src, n)
        parts = [q for e, q in getattr(src, 'parts', []) if e == 'V' and q is not None]
        q = src.seq if src.elem == 'V' else (parts[0] if len(parts) == 2 else None)
        if not found or q is None:
            if self.quick_unsat(src.length > 0):
                return CountV(IntVal(0))
            raise Unsupported('filtered comprehension', n)
        x, rest = found[-1]
        return CountV(If(rest, L.cnt(q, x, src.length), 0))

    def std_func(self, cls, name):
        """The function a class inherits from collections.abc, from the source
        of the interpreter's own library."""
        import collections.abc as c
        bases = tuple(b for b in (getattr(c, str(x).rsplit('.', 1)[-1], None) for x in cls.builtin_bases()) if b is not None)
        if not bases:
            return None
        drop = [b for b in bases if any(b is not d and b in d.__mro__ for d in bases)]
        real = type('Base', tuple(b for b in bases if b not in drop), {})
        for k in real.__mro__:
            if name in k.__dict__ and k is not real:
                break
        else:
            return None
        if k.__module__ != 'collections.abc':
            return None
        return std_source().get((k.__name__, name)) and self.std_make(k.__name__, name)

    def std_make(self, cname, name):
        m = self.modules.get('_collections_abc')
        if m is None:
            m = self.modules['_collections_abc'] = Module('_collections_abc')
            self.source_lines['_collections_abc'] = STD['lines']
        env = {}
        fr = Frame(None, env, m)
        self.exec_stmt(std_source()[cname, name], fr)
        return env[name]

    def map_source(self, fn, src, node):
        """Iterator of fn(x) for x in src, by executing fn on a symbolic element."""
        if self.quick_unsat(src.length > 0):
            return self.new_iter(None, None, list(src.deps))
        idx = self.fresh_int('ci')
        mark = len(self.facts)
        cmark = self.counter
        dmark = len(self.decisions)
        heap0 = self.snapshot()
        self.quick.push()
        self.assume(And(0 <= idx, idx < src.length))
        outer_reads, self.reads = self.reads, []
        effect0 = self.map_effects
        self.map_effects = []
        self.in_map += 1
        try:
            v = fn(src.item(idx))
        except PyExc:
            raise Unsupported('exception inside a comprehension element', node)
        except PathEnd:
            raise Unsupported('dead end inside a comprehension element', node)
        finally:
            self.quick.pop()
            self.in_map -= 1
            reads, self.reads = self.reads, outer_reads
            effects, self.map_effects = self.map_effects, effect0
        if outer_reads is not None:
            outer_reads.extend(reads)
        eff_lists = {l for (_, l, _) in effects}
        eff_attrs = {(o, '_offset') for (o, _, _) in effects}
        if len(self.decisions) != dmark:
            raise Unsupported('branching inside a comprehension element', node)
        for hid, o in heap0.items():
            cur = self.heap[hid]
            if hid in eff_lists:
                continue
            if isinstance(o, ListObj) and not (isinstance(cur, ListObj) and (cur.seq is o.seq or cur.seq.eq(o.seq))):
                raise Unsupported('side effect inside a comprehension', node)
            if isinstance(o, SetObj) and not cur.s.eq(o.s) or isinstance(o, DictObj) and not cur.m.eq(o.m):
                raise Unsupported('side effect inside a comprehension', node)
            if isinstance(o, InstObj):
                if any(not same_val(x, cur.attrs.get(a)) for a, x in o.attrs.items() if (hid, a) not in eff_attrs) or o.folded != cur.folded \
                        or (o.map is not None and not o.map.eq(cur.map)):
                    raise Unsupported('side effect inside a comprehension', node)
        inner = self.facts[mark + 1:] if len(self.facts) > mark else []
        guard = And(0 <= idx, idx < src.length)
        inner = [f for f in self.facts[mark:] if not any(f.eq(c) for c in guard.children())]
        del self.facts[mark:]
        # generalise constants created while evaluating the element
        qi = z3.Int('q_i')

        def gen(e):
            cs = _consts_after(e, cmark)
            subs = [(idx, qi)]
            for c in cs:
                if c.eq(idx):
                    continue
                fc = z3.Function(c.decl().name() + '@', L.I, c.sort())
                subs.append((c, fc(qi)))
            return z3.substitute(e, *subs)

        def out_for(val, pair=False):
            ek, t = ('V', NONE_V) if pair and isinstance(val, NoneT) else self.elem_of(val)
            T = self.theory(ek)
            # recognised maps keep a closed form
            cf = self.closed_map(src, ek, t, idx)
            if cf is not None:
                return ek, cf
            R = self.fresh('comp', T.sort)
            self.facts.append(T.len(R) == src.length)
            self.quick.add(T.len(R) == src.length)
            pats = [T.at(R, qi)]
            body = Implies(And(0 <= qi, qi < src.length), And(*([gen(f) for f in inner] + [T.at(R, qi) == gen(t)])))
            self.facts.append(ForAll([qi], body, patterns=pats))
            self.chunk_hint(R, ek, t, idx, src)
            return ek, R
        deps = list(src.deps) + [r for r in reads if r[0] == 'env' or r[1] in heap0]
        deps = [d for d in deps if not (d[0] == 'list' and d[1] in eff_lists) and not (d[0] == 'attr' and (d[1], d[2]) in eff_attrs)]
        inner_iter = fresh_inner = False
        if isinstance(v, IterRef):
            # an iterator per item: only `reversed(bucket)` and friends
            io2 = self.heap[v.id]
            if io2.seq is None or io2.elem is None or io2.elems is not None or self.nested(io2.elem):
                raise Unsupported('iterator of iterators', node)
            deps += [d for d in io2.deps if d[0] == 'world' or d[1] in heap0]
            v = self.new_list(io2.elem, io2.seq)
            inner_iter = True
        elif isinstance(v, ListRef) and v.id not in heap0 and isinstance(self.heap[v.id], ListObj):
            fresh_inner = True
        if isinstance(v, TupleV):
            outs = [out_for(x, True) for x in v.items]
            io = IterObj(None, None, deps, outs)
        elif isinstance(v, BoolV):
            io = IterObj(None, None, deps)
            io.boolmap = ForAll([qi], Implies(And(0 <= qi, qi < src.length), gen(And(*(inner + [v.t])))))
            io.boolany = None
        else:
            ek, R = out_for(v)
            io = IterObj(ek, R, deps)
            io.inner_iter, io.fresh_inner = inner_iter, fresh_inner
            if ek == 'I' and src.elem == 'LV' and src.seq is not None and t_is_len(v, src, idx):
                io.sumlen = SV.len(L.flat(src.seq))
        if effects:
            objs = sorted({o for (o, _, _) in effects})

            def post():
                for oid in objs:
                    self.havoc_index_of(oid)
            io.post = post
        return IterRef(self.alloc(io))

    map_effects = None

    def havoc_index_of(self, oid):
        raise Unsupported('index effect')

    def closed_map(self, src, ek, t, idx):
        if src.elem == 'LV' and ek == 'LV' and src.seq is not None and t.decl().eq(SV.rev):
            inner, q = t.arg(0), src.seq
            if inner.eq(SSV.AT(q, idx)):
                return L.revall(q)
            if q.decl().eq(SSV.rev) and inner.decl().eq(SSV.at) and inner.arg(0).eq(q.arg(0)) \
               and L.cmp_(inner.arg(1), SSV.LEN(q) - 1 - idx) == 0:
                return L.revall(q)
        rng, rv = src.range, False
        if rng is None and getattr(src, 'revrange', None) is not None:
            rng, rv = src.revrange, True
        if rng is not None and z3.is_int_value(z3.simplify(rng[2])) and z3.simplify(rng[2]).as_long() == 1:
            T = self.theory(ek)
            if t.decl().eq(T.at) and not _contains(t.arg(0), idx):
                a, b = rng[0], rng[1]
                off = src.length - 1 - idx if rv else idx
                if z3.simplify(t.arg(1) - (a + off)).eq(IntVal(0)):
                    S = t.arg(0)
                    if self.implied(And(0 <= a, b <= T.len(S)), 'range within the list'):
                        if self.implied(a <= b, 'range is ordered'):
                            r = T.SL(S, a, b)
                        else:
                            r = None
                        if r is not None:
                            return T.rev(r) if rv else r
        if src.elem == 'V' and ek == 'K':
            if t.eq(L.ord_(SV.at(src.seq, idx))) or t.eq(L.ord_(SV.AT(src.seq, idx))):
                return L.mapord(src.seq)
        if src.elem == ek and src.seq is not None and t.eq(self.theory(ek).AT(src.seq, idx)):
            return src.seq
        if src.elem == 'V' and ek == 'V' and t.decl().eq(L.val) and t.arg(1).eq(SV.AT(src.seq, idx)) and not _contains(t.arg(0), idx):
            return L.mvals(t.arg(0), src.seq)
        if src.elem == 'V' and ek == 'V' and src.seq is not None and not _contains(t, idx):
            return L.konst(t, SV.LEN(src.seq))
        return None

    def chunk_hint(self, R, ek, t, idx, src):
        """Instance of the chunking lemma: slices of one sequence taken at
        consecutive multiples of m are its chunks."""
        if ek != 'LV' or src.range is None:
            return
        a, b, st = src.range
        base = None
        x = t
        while z3.is_app(x) and x.num_args() and x.decl().name() in ('sl_V',):
            base = x.arg(0)
            break
        if base is None:
            cands = [y for y in _subterms(t) if z3.is_app(y) and y.decl().name() == 'sl_V']
            if not cands:
                return
            base = cands[0].arg(0)
        if _contains(base, idx):
            return
        q = z3.Int('q_c')
        n = SV.len(base)
        lo = a + L_mul(q, st)
        hi = If(lo + st < n, lo + st, n)
        prem = And(st >= 1, a == 0, b == n,
                   ForAll([q], Implies(And(0 <= q, q < SSV.len(R)), SSV.at(R, q) == SV.sl(base, lo, hi)), patterns=[SSV.at(R, q)]))
        if self.proved(prem, 'comprehension cuts the sequence into consecutive chunks', ms=4000):
            self.assume(R == L.chunks(base, st))

    # ------------------------------------------------------------ truth & compare
    def truth(self, v, node=None):
        if isinstance(v, BoolV):
            return self.branch(v.t)
        if isinstance(v, IntV):
            return self.branch(v.t != 0)
        if isinstance(v, (NoneT,)):
            return False
        if isinstance(v, ElemV):
            self.assume(Not(L.truthy(NONE_V)))      # nothing else is known of the truth of a user's value
            return self.branch(L.truthy(v.t))
        if isinstance(v, ListRef):
            e, s = self.lst(v)
            if e is None:
                return False
            return self.branch(self.theory(e).LEN(s) > 0)
        if isinstance(v, TupleV):
            return len(v.items) > 0
        if isinstance(v, SetRef):
            return self.branch(L.CARD(self.heap[v.id].s) > 0)
        if isinstance(v, DictRef):
            if self.heap[v.id].m.eq(L.memp):
                return False
            return self.branch(L.CARD(L.DOM(self.heap[v.id].m)) > 0)
        if isinstance(v, (FuncV, BuiltinV, ClassV, BoundV, KeyFuncV)):
            return True
        if isinstance(v, ObjRef):
            n = self.call(BuiltinV('len'), [v], {}, node)
            return self.branch(n.t != 0)
        if isinstance(v, StrV) and all(isinstance(p, str) for p in v.parts):
            return bool(''.join(v.parts))
        raise Unsupported(f'truth value of {v!r}', node)

    def is_same(self, a, b, node):
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                if (a if isinstance(a, OpaqueV) else b).isa.get('None') is False:
                    return False
                raise Unsupported('is None on unknown', node)
            if isinstance(a, ElemV) or isinstance(b, ElemV):
                return (a if isinstance(a, ElemV) else b).t == NONE_V      # an element may be None
            return isinstance(a, NoneT) and isinstance(b, NoneT)
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            return a.name == b.name
        if isinstance(a, (BoolV,)) and isinstance(b, BoolV):
            return None
        if type(a) is not type(b):
            return False
        if isinstance(a, (ObjRef, ListRef, SetRef, DictRef)):
            return a.id == b.id
        if isinstance(a, (ClassV, FuncV, KeyFuncV, OpaqueV)):
            return a is b
        return None

    def compare(self, op, a, b, node=None):
        if op in ('Is', 'IsNot'):
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                r = a.t == b.t
                return BoolV(r if op == 'Is' else Not(r))
            r = self.is_same(a, b, node)
            if r is None and isinstance(a, ElemV) and isinstance(b, ElemV):
                # objects are not distinguished further than values are
                r = self.fresh('same', L.B)
                self.assume(Implies(r, a.t == b.t))
            if r is None and isinstance(a, TupleV) and isinstance(b, TupleV):
                r = self.fresh('same', L.B)
                eq = self.tuple_eq(a, b, node)
                self.assume(Implies(r, eq))
            if r is None:
                raise Unsupported(f'identity of {a!r} and {b!r}', node)
            if z3.is_expr(r):
                return BoolV(r if op == 'Is' else Not(r))
            return BoolV(r if op == 'Is' else not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, node)
            return r if op == 'In' else BoolV(Not(r.t))
        if isinstance(a, TupleV) and isinstance(b, TupleV) and op in ('Eq', 'NotEq'):
            eq = self.tuple_eq(a, b, node)
            return BoolV(eq if op == 'Eq' else Not(eq))
        if isinstance(a, BoolV) and isinstance(b, BoolV) and op in ('Eq', 'NotEq'):
            return BoolV(a.t == b.t if op == 'Eq' else a.t != b.t)
        if isinstance(a, BoolV):
            a = IntV(If(a.t, 1, 0))
        if isinstance(b, BoolV):
            b = IntV(If(b.t, 1, 0))
        if isinstance(a, IntV) and isinstance(b, IntV):
            x, y = a.t, b.t
            return BoolV({'Eq': x == y, 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, KeyV) and isinstance(b, KeyV):
            x, y = a.t, b.t
            return BoolV({'Eq': x == y, 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, ElemV) and isinstance(b, ElemV):
            if op == 'Eq':
                return BoolV(L.eqc(a.t) == L.eqc(b.t))
            if op == 'NotEq':
                return BoolV(L.eqc(a.t) != L.eqc(b.t))
            self.may_raise_compare(a, b)
            o = self.natural()
            x, y = o(a.t), o(b.t)
            return BoolV({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, NoneT) or isinstance(b, NoneT):
            e = a if isinstance(a, ElemV) else b
            if isinstance(e, ElemV):
                return self.compare(op, a if e is a else ElemV(NONE_V), ElemV(NONE_V) if e is a else b, node)
            if op in ('Eq', 'NotEq'):
                return BoolV((op == 'Eq') == (isinstance(a, NoneT) and isinstance(b, NoneT)))
            raise PyExc('TypeError')
        if op in ('Eq', 'NotEq') and type(a) is not type(b) and {type(a), type(b)} & {IntV, ListRef, TupleV} and not isinstance(a, (ObjRef, OpaqueV)) and not isinstance(b, (ObjRef, OpaqueV)):
            raise Unsupported(f'== between {a!r} and {b!r}', node)
        if isinstance(a, SetRef) and isinstance(b, SetRef):
            x, y = self.heap[a.id].s, self.heap[b.id].s
            return self.set_compare(op, x, y)
        if isinstance(a, ObjRef):
            dn = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
            f = self.heap[a.id].cls.lookup(dn)
            if f is not None:
                return self.call(BoundV(a, f), [b], {}, node)
        if isinstance(a, StrV) and isinstance(b, StrV):
            if all(isinstance(p, str) for p in a.parts + b.parts) and op in ('Eq', 'NotEq'):
                r = ''.join(a.parts) == ''.join(b.parts)
                return BoolV(r if op == 'Eq' else not r)
        raise Unsupported(f'comparison {op} of {a!r} and {b!r}', node)

    def tuple_eq(self, a, b, node):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        out = []
        for x, y in zip(a.items, b.items):
            r = self.compare('Eq', x, y, node)
            if not isinstance(r, BoolV):
                raise Unsupported('== between tuples', node)
            out.append(r.t)
        return And(*out)

    def set_compare(self, op, x, y):
        v = z3.Const('cv', L.V)
        sub = lambda p, q: ForAll([v], Implies(L.mem(p, v), L.mem(q, v)), patterns=[L.mem(p, v)])
        le = L_subset(x, y)
        ge = L_subset(y, x)
        t = {'Eq': And(le, ge), 'NotEq': Not(And(le, ge)), 'LtE': le, 'GtE': ge, 'Lt': And(le, Not(ge)), 'Gt': And(ge, Not(le))}[op]
        return BoolV(t)

    def natural(self):
        return L.ord_ if self.mode == 'plain' else L.nord

    def may_raise_compare(self, *vals):
        for v in vals:
            bad = isinstance(v, (ElemV, KeyV)) and getattr(v, 'bad', False)
            if bad:
                if bad == 'maybe' and self.decide(2) == 1:
                    continue
                self.blown = bad
                raise PyExc('TypeError', ('incomparable',))

    # ------------------------------------------------------------ binop
    def binop(self, op, a, b, node, inplace=False):
        if isinstance(a, BoolV):
            a = IntV(If(a.t, 1, 0))
        if isinstance(b, BoolV):
            b = IntV(If(b.t, 1, 0))
        if isinstance(a, IntV) and isinstance(b, IntV):
            x, y = a.t, b.t
            cy = z3.simplify(y)
            yc = cy.as_long() if z3.is_int_value(cy) else None
            if op == 'Add':
                return IntV(z3.simplify(x + y))
            if op == 'Sub':
                return IntV(z3.simplify(x - y))
            if op == 'Mult':
                cx = z3.simplify(x)
                if yc is not None or z3.is_int_value(cx):
                    return IntV(z3.simplify(x * y))
                return IntV(L_mul(x, y))
            if op == 'RShift' and yc is not None and yc >= 0:
                for _ in range(yc):
                    x = self.half(x)
                return IntV(x)
            if op == 'LShift' and yc is not None and yc >= 0:
                return IntV(z3.simplify(x * (2 ** yc)))
            if op == 'FloorDiv' and yc == 2:
                return IntV(self.half(x))
            if op == 'FloorDiv' and yc is not None and yc > 0:
                return IntV(x / yc)
            if op == 'Mod' and yc == 2 or op == 'BitAnd' and yc == 1:
                return IntV(x - 2 * self.half(x))
            if op == 'BitAnd' and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 1:
                return IntV(y - 2 * self.half(y))
            if op == 'Mod' and yc is not None and yc > 0:
                return IntV(x % yc)
            if op == 'Pow' and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 2:
                if yc is not None and yc >= 0:
                    return IntV(2 ** yc)
                p = self.pow2_of(y)
                if p is not None:
                    return IntV(p)
            if op == 'LShift' and z3.is_int_value(z3.simplify(x)):
                p = self.pow2_of(y)
                if p is not None:
                    return IntV(z3.simplify(x * p))
            raise Unsupported(f'integer operator {op}', node)
        if isinstance(a, ListRef) and op == 'Add':
            if isinstance(b, ListRef):
                if inplace:
                    self.list_extend(a, b, node)
                    return a
                ea, sa = self.lst(a)
                eb, sb = self.lst(b)
                if ea is None:
                    return self.new_list(eb, sb)
                if eb is None:
                    return self.copy_list(a)
                if ea != eb:
                    raise Unsupported('list concatenation of different kinds', node)
                r = self.new_list(ea, self.theory(ea).CAT(sa, sb))
                if self.nested(ea):
                    self.heap[r.id].shared = ((a.id, sa), (b.id, sb))
                return r
            if inplace:
                self.list_extend(a, b, node)
                return a
        if isinstance(a, ListRef) and op == 'Mult' and isinstance(b, IntV):
            e, s = self.lst(a)
            if e is None:
                return self.new_list(None, None)
            if self.nested(e):
                raise Unsupported('repetition of nested list', node)
            T = self.theory(e)
            if inplace:
                self.set_seq(a, T.rep(s, b.t))
                return a
            return self.new_list(e, T.rep(s, b.t))
        if isinstance(a, SetRef) and isinstance(b, SetRef):
            f = {'BitOr': L.sunion, 'BitAnd': L.sinter, 'Sub': L.sdiff, 'BitXor': L.ssym}.get(op)
            if f is not None:
                r = f(self.heap[a.id].s, self.heap[b.id].s)
                if inplace:
                    self.heap[a.id].s = r
                    return a
                return SetRef(self.alloc(SetObj(r)))
        if isinstance(a, StrV) and op in ('Add', 'Mod'):
            return StrV(a.parts + (b.parts if isinstance(b, StrV) else [('%', b)]))
        if isinstance(a, StrV) or isinstance(b, StrV):
            return StrV([OpaqueV('str op')])
        raise Unsupported(f'operator {op} on {a!r}, {b!r}', node)

    def half(self, x):
        c = z3.simplify(x)
        if z3.is_int_value(c):
            return IntVal(c.as_long() >> 1)
        h = L.hlf(c)
        f = And(2 * h <= c, c <= 2 * h + 1)
        self.assume(f)
        return h

    def pow2_of(self, y):
        """2**y where y was computed as floor(log2 m) + constant."""
        y = z3.simplify(y)
        add = 0
        lg = None
        terms = y.children() if z3.is_add(y) else [y]
        for tm in terms:
            if z3.is_int_value(tm):
                add += tm.as_long()
            elif tm.decl().name() == 'flog2':
                lg = tm.arg(0)
            else:
                return None
        if lg is None or add < 0:
            return None
        # npow(m) = 2**(floor(log2 m)+1)
        self.assume(And(L.pow2(L.npow(lg)), L.npow(lg) > lg, L.npow(lg) <= 2 * lg))
        if add == 0:
            return self.half(L.npow(lg))
        return z3.simplify(L.npow(lg) * 2 ** (add - 1))


def t_is_len(v, src, idx):
    return isinstance(v, IntV) and v.t.eq(SV.LEN(SSV.AT(src.seq, idx)))


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (IntV, KeyV, BoolV, ElemV)):
        return a.t.eq(b.t)
    if isinstance(a, (ListRef, SetRef, DictRef, ObjRef, IterRef)):
        return a.id == b.id
    if isinstance(a, TupleV):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, BoundV):
        return same_val(a.self_, b.self_) and a.func is b.func
    if isinstance(a, BuiltinV):
        return a.name == b.name
    if isinstance(a, (NoneT, NotImplT)):
        return True
    return False


class StarArg:
    """*x at a call site, x a sequence of iterables of unknown length."""

    def __init__(self, v):
        self.v = v


class KwArgs(Val):
    """**kwargs whose content is an abstract map (or empty)."""

    def __init__(self, m=None):
        self.m = m
        self.nonempty = m is not None


class VarIters(Val):
    """*iterables: a tuple of n>=0 iterables, of which only the union and
    the intersection (relative to a set) matter."""

    def __init__(self, union, seqall, inter):
        self.union, self.seqall, self.inter = union, seqall, inter


_mulf = L.mulf


def L_mul(x, y):
    cx, cy = z3.simplify(x), z3.simplify(y)
    if z3.is_int_value(cx) or z3.is_int_value(cy):
        return z3.simplify(cx * cy)
    return _mulf(cx, cy)


def L_subset(p, q):
    return L.subset(p, q)


class CandError(Exception):
    pass


class Cand:
    def __init__(self, name, fn, free=False, ms=1200, needs=()):
        self.needs = tuple(needs)   # names of candidates this one makes no sense without
        self.name, self.fn, self.free, self.ms = name, fn, free, ms


class LoopInfo:
    def __init__(self):
        self.mods = set()
        self.folds = set()
        self.cands = None
        self.measures = []
        self.measured = False
        self.touched = set()        # lists the body subscripts
        self.dropped = []
        self.scouted = False
        self.types = {}             # lists empty at entry: the kind of element the body puts into them

    def inst_lists(self, eng, head):
        out = set()
        for oid in self.folds:
            o = head.get(oid)
            if isinstance(o, InstObj):
                for v in o.attrs.values():
                    if isinstance(v, ListRef):
                        out.add(v.id)
        return out


class LoopCtx:
    def __init__(self, eng, st, fr, src, targets, names, info):
        self.eng, self.st, self.fr, self.src, self.targets, self.names, self.info = eng, st, fr, src, targets, names, info
        self.pre_env = None
        self.pre_heap = None
        self.current = []
        self.head_env = None

    def ints(self, modified=None):
        """names of int locals (modified in the loop, or all)"""
        out = []
        for nm, v in self.fr.env.items():
            if isinstance(v, IntV) and (modified is None or (nm in self.names) == modified):
                out.append(nm)
        return out

    def t(self, nm):
        v = self.fr.env.get(nm)
        if not isinstance(v, (IntV, KeyV, ElemV)):
            raise CandError()
        return v.t

    def pre(self, nm):
        return self.pre_env[nm].t


def _has_quant(f):
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _subterms(e):
    stack, seen, out = [e], set(), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out


def _contains(e, c):
    return any(x.eq(c) for x in _subterms(e))


def _consts_after(e, mark):
    out = []
    for x in _subterms(e):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if '!' in nm:
                try:
                    if int(nm.rsplit('!', 1)[1]) > mark:
                        out.append(x)
                except ValueError:
                    pass
    return out


from builtins_model import BuiltinsMixin, NONE_V  # noqa: E402
for _n in dir(BuiltinsMixin):
    if not _n.startswith('__'):
        setattr(Engine, _n, getattr(BuiltinsMixin, _n))
from rep import RepMixin  # noqa: E402
for _n in dir(RepMixin):
    if not _n.startswith('__'):
        setattr(Engine, _n, getattr(RepMixin, _n))


def _havoc_index_of(self, oid):
    import contracts_sl
    ob = self.heap[oid]
    if not ob.folded:
        contracts_sl.havoc_index(self, ob)


Engine.havoc_index_of = _havoc_index_of
