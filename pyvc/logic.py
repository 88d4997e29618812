"""First-order theory in which the verification conditions are stated.

Sorts
  V          opaque Python values (elements, dict keys, dict values)
  Int, Bool  Python integers (mathematical, which is what Python has) / bools
  SV,SI      finite sequences of V / Int
  SSV,SSI    finite sequences of SV / SI (the bucket lists)
  Set        sets of V

Every axiom below carries a name and the trigger used for e-matching.  The
axioms are *not* about the code: they define sequences, stable sorting,
bisection, prefix sums and heap-shaped sum trees.  lean/ proves each of them
for a concrete model.
"""
import z3
from z3 import (Int, Ints, IntVal, BoolVal, And, Or, Not, Implies, If, ForAll,
                Exists, Function, DeclareSort, IntSort, BoolSort, Const)

V = DeclareSort('V')
I = IntSort()
B = BoolSort()

AXIOMS = []      # (name, formula, trigger symbol names)


def _syms(e, acc=None):
    """Names of uninterpreted function symbols (arity>0) and sorts' constants."""
    if acc is None:
        acc = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            for i in range(x.num_patterns()):
                stack.append(x.pattern(i))
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or d.name().startswith('emp_')):
                acc.add(d.name())
            stack.extend(x.children())
    return acc


def axiom(name, vs, body, pats):
    if vs:
        f = ForAll(vs, body, patterns=pats, qid=name)
    else:
        f = body
    trig = []
    for p in pats:
        s = set()
        if z3.is_pattern(p):
            for i in range(p.num_args()):
                _syms(p.arg(i), s)
        else:
            _syms(p, s)
        trig.append(s)
    AXIOMS.append((name, f, trig, _syms(f), vs, body))


class SeqT:
    """Theory of finite sequences over one element sort."""
    ALL = {}

    def __init__(self, tag, elem, sort):
        self.tag, self.elem = tag, elem
        self.sort = S = sort
        F = Function
        self.len = F('len_' + tag, S, I)
        self.at = F('at_' + tag, S, I, elem)
        self.emp = Const('emp_' + tag, S)
        self.unit = F('unit_' + tag, elem, S)
        self.cat = F('cat_' + tag, S, S, S)
        self.sl = F('sl_' + tag, S, I, I, S)
        self.upd = F('upd_' + tag, S, I, elem, S)
        self.ins = F('ins_' + tag, S, I, elem, S)
        self.rem = F('rem_' + tag, S, I, S)
        self.rev = F('rev_' + tag, S, S)
        self.rep = F('rep_' + tag, S, I, S)
        SeqT.ALL[tag] = self
        s, t = Const('s', S), Const('t', S)
        x = Const('x', elem)
        a, b, i, j = Ints('a b i j')
        ln, at = self.len, self.at
        ax = lambda n, vs, body, pats: axiom(f'{n}_{tag}', vs, body, pats)
        ax('len_nonneg', [s], ln(s) >= 0, [ln(s)])
        ax('len_emp', [], ln(self.emp) == 0, [self.emp])
        ax('len_zero', [s], Implies(ln(s) == 0, s == self.emp), [ln(s)])
        ax('unit', [x], And(ln(self.unit(x)) == 1, at(self.unit(x), 0) == x), [self.unit(x)])
        ax('cat_len', [s, t], ln(self.cat(s, t)) == ln(s) + ln(t), [self.cat(s, t)])
        ax('cat_at', [s, t, i], Implies(And(0 <= i, i < ln(s) + ln(t)),
           at(self.cat(s, t), i) == If(i < ln(s), at(s, i), at(t, i - ln(s)))), [at(self.cat(s, t), i)])
        ax('sl_len', [s, a, b], Implies(And(0 <= a, a <= b, b <= ln(s)), ln(self.sl(s, a, b)) == b - a), [self.sl(s, a, b)])
        ax('sl_at', [s, a, b, i], Implies(And(0 <= a, a <= b, b <= ln(s), 0 <= i, i < b - a),
           at(self.sl(s, a, b), i) == at(s, a + i)), [at(self.sl(s, a, b), i)])
        ax('upd_len', [s, i, x], ln(self.upd(s, i, x)) == ln(s), [self.upd(s, i, x)])
        ax('upd_at', [s, i, x, j], Implies(And(0 <= i, i < ln(s), 0 <= j, j < ln(s)),
           at(self.upd(s, i, x), j) == If(i == j, x, at(s, j))), [at(self.upd(s, i, x), j)])
        ax('ins_len', [s, i, x], Implies(And(0 <= i, i <= ln(s)), ln(self.ins(s, i, x)) == ln(s) + 1), [self.ins(s, i, x)])
        ax('ins_at', [s, i, x, j], Implies(And(0 <= i, i <= ln(s), 0 <= j, j <= ln(s)),
           at(self.ins(s, i, x), j) == If(j < i, at(s, j), If(j == i, x, at(s, j - 1)))), [at(self.ins(s, i, x), j)])
        ax('rem_len', [s, i], Implies(And(0 <= i, i < ln(s)), ln(self.rem(s, i)) == ln(s) - 1), [self.rem(s, i)])
        ax('rem_at', [s, i, j], Implies(And(0 <= i, i < ln(s), 0 <= j, j < ln(s) - 1),
           at(self.rem(s, i), j) == If(j < i, at(s, j), at(s, j + 1))), [at(self.rem(s, i), j)])
        ax('rev_len', [s], ln(self.rev(s)) == ln(s), [self.rev(s)])
        ax('rev_at', [s, i], Implies(And(0 <= i, i < ln(s)), at(self.rev(s), i) == at(s, ln(s) - 1 - i)), [at(self.rev(s), i)])
        ax('rep_le0', [s, i], Implies(i <= 0, self.rep(s, i) == self.emp), [self.rep(s, i)])
        ax('rep_len', [s, i], Implies(i > 0, ln(self.rep(s, i)) == ln(s) * i), [self.rep(s, i)])

    # ---- smart constructors (semantics-preserving simplifications) ----
    def is_emp(self, s):
        return s.eq(self.emp)

    def LEN(self, s):
        if s.eq(self.emp):
            return IntVal(0)
        d = s.decl()
        if d.eq(self.unit):
            return IntVal(1)
        if d.eq(self.cat):
            return z3.simplify(self.LEN(s.arg(0)) + self.LEN(s.arg(1)))
        if d.eq(self.upd) or d.eq(self.rev):
            return self.LEN(s.arg(0))
        return self.len(s)

    def CAT(self, s, t):
        if s.eq(self.emp):
            return t
        if t.eq(self.emp):
            return s
        return self.cat(s, t)

    # (all indices are proved to be in range before these are built)
    def AT(self, s, i):
        i = z3.simplify(i) if z3.is_expr(i) else IntVal(i)
        d = s.decl()
        if d.eq(self.unit) and z3.is_int_value(i) and i.as_long() == 0:
            return s.arg(0)
        if d.eq(self.upd) or d.eq(self.ins) or d.eq(self.rem):
            c = cmp_(i, s.arg(1))
            if c is not None:
                if d.eq(self.upd):
                    return s.arg(2) if c == 0 else self.AT(s.arg(0), i)
                if d.eq(self.ins):
                    return s.arg(2) if c == 0 else self.AT(s.arg(0), i if c < 0 else i - 1)
                return self.AT(s.arg(0), i if c < 0 else i + 1)
        if d.eq(self.cat):
            if s.arg(0).decl().eq(self.unit) and z3.is_int_value(i) and i.as_long() == 0:
                return s.arg(0).arg(0)
            if s.arg(1).decl().eq(self.unit) and cmp_(i, self.LEN(s.arg(0))) == 0:
                return s.arg(1).arg(0)
        return self.at(s, i)

    def SL(self, s, a, b):
        a = z3.simplify(a) if z3.is_expr(a) else IntVal(a)
        b = z3.simplify(b) if z3.is_expr(b) else IntVal(b)
        if z3.is_int_value(a) and a.as_long() == 0 and (b.eq(z3.simplify(self.LEN(s)))):
            return s
        if a.eq(b):
            return self.emp
        return self.sl(s, a, b)

    def UPD(self, s, i, x):
        i = z3.simplify(i) if z3.is_expr(i) else IntVal(i)
        d = s.decl()
        if d.eq(self.upd) or d.eq(self.ins) or d.eq(self.rem):
            c = cmp_(i, s.arg(1))
            if c is not None:
                if d.eq(self.upd):
                    if c == 0:
                        return self.UPD(s.arg(0), i, x)
                    if self._has_upd(s.arg(0), i):
                        return self.upd(self.UPD(s.arg(0), i, x), s.arg(1), s.arg(2))
                elif d.eq(self.ins):
                    if c == 0:
                        return self.INS(s.arg(0), i, x)
                    return self.INS(self.UPD(s.arg(0), i if c < 0 else i - 1, x), s.arg(1), s.arg(2))
                else:
                    return self.REM(self.UPD(s.arg(0), i if c < 0 else i + 1, x), s.arg(1))
        return self.upd(s, i, x)

    def REM(self, s, i):
        i = z3.simplify(i) if z3.is_expr(i) else IntVal(i)
        s = self._drop_upd(s, i)
        if s.decl().eq(self.ins) and cmp_(i, s.arg(1)) == 0:
            return s.arg(0)
        return self.rem(s, i)

    def _has_upd(self, s, i):
        while s.decl().eq(self.upd):
            c = cmp_(i, s.arg(1))
            if c is None:
                return False
            if c == 0:
                return True
            s = s.arg(0)
        return False

    def _drop_upd(self, s, i):
        if s.decl().eq(self.upd):
            c = cmp_(i, s.arg(1))
            if c == 0:
                return self._drop_upd(s.arg(0), i)
            if c is not None:
                return self.upd(self._drop_upd(s.arg(0), i), s.arg(1), s.arg(2))
        return s

    def INS(self, s, i, x):
        i = z3.simplify(i) if z3.is_expr(i) else IntVal(i)
        if s.decl().eq(self.rem) and cmp_(i, s.arg(1)) == 0:
            return self.UPD(s.arg(0), i, x)
        return self.ins(s, i, x)


def cmp_(a, b):
    """-1, 0, 1 when the comparison of a and b is syntactically decided."""
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        n = d.as_long()
        return (n > 0) - (n < 0)
    return None


def definitely_ne(a, b):
    d = z3.simplify(a - b)
    return z3.is_int_value(d) and d.as_long() != 0


SVs = DeclareSort('SV')
SIs = DeclareSort('SI')
SSVs = DeclareSort('SSV')
SSIs = DeclareSort('SSI')
SV = SeqT('V', V, SVs)
SI = SeqT('I', I, SIs)
SSV = SeqT('SV', SVs, SSVs)
SSI = SeqT('SI', SIs, SSIs)

SEQ_OF_ELEM = {'V': SV, 'I': SI, 'K': SI, 'LV': SSV, 'LI': SSI, 'LK': SSI}

# ------------------------------------------------------------------ order
ord_ = Function('ord', V, I)      # rank of a value in the collection's order
eqc = Function('eqc', V, I)       # equality class of a value (a == b)
truthy = Function('truthy', V, z3.BoolSort())   # truth value of a value
nord = Function('nord', V, I)     # natural order, when a key function is used
v, w = Const('v', V), Const('w', V)
s, t = Const('s', SVs), Const('t', SVs)
F, G = Const('F', SVs), Const('G', SVs)
i, j, k, n, a, b, c, m = Ints('i j k n a b c m')


def EQ(x, y):
    return eqc(x) == eqc(y)


# Three regimes for equality, each given by a linear (single variable) axiom:
#  keyed lists  - equal values have equal ranks (ord factors through eqc);
#  plain lists  - equality and rank coincide; class labels can be chosen to be
#                 the ranks, so the axiom is stated as eqc = ord;
#  sets, dicts  - a value stands for its class, so eqc is injective.
ordc = Function('ordc', I, I)
uneq = Function('uneq', I, V)
EQ_ORD_KEY = ForAll([v], ordc(eqc(v)) == ord_(v), patterns=[eqc(v), ord_(v)], qid='eq_ord')
EQ_ORD_PLAIN = ForAll([v], eqc(v) == ord_(v), patterns=[eqc(v)], qid='eq_ord_plain')
EQ_IDENT = ForAll([v], uneq(eqc(v)) == v, patterns=[eqc(v)], qid='eq_ident')

isplain = z3.Bool('isplain')     # equality and rank coincide (plain lists)
# sorted predicate on V sequences (opaque) : by ord
sortedV = Function('sortedV', SVs, B)
axiom('sortedV_elim', [s, i, j], Implies(And(sortedV(s), 0 <= i, i <= j, j < SV.len(s)),
      ord_(SV.at(s, i)) <= ord_(SV.at(s, j))),
      [z3.MultiPattern(sortedV(s), SV.at(s, i), SV.at(s, j))])


def sortedV_def(s):
    """facts to prove to establish sortedV(s)"""
    i, j = Ints('si sj')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < SV.len(s)),
                                  ord_(SV.at(s, i)) <= ord_(SV.at(s, j))))


# bisect on V sequences by rank k
bl = Function('bl', SVs, I, I)
br = Function('br', SVs, I, I)
axiom('bl_range', [s, k], And(0 <= bl(s, k), bl(s, k) <= SV.len(s)), [bl(s, k)])
axiom('br_range', [s, k], And(0 <= br(s, k), br(s, k) <= SV.len(s)), [br(s, k)])
axiom('bl_below', [s, k, i], Implies(And(sortedV(s), 0 <= i, i < bl(s, k)), ord_(SV.at(s, i)) < k),
      [z3.MultiPattern(bl(s, k), SV.at(s, i))])
axiom('bl_above', [s, k, i], Implies(And(sortedV(s), bl(s, k) <= i, i < SV.len(s)), ord_(SV.at(s, i)) >= k),
      [z3.MultiPattern(bl(s, k), SV.at(s, i))])
axiom('br_below', [s, k, i], Implies(And(sortedV(s), 0 <= i, i < br(s, k)), ord_(SV.at(s, i)) <= k),
      [z3.MultiPattern(br(s, k), SV.at(s, i))])
axiom('br_above', [s, k, i], Implies(And(sortedV(s), br(s, k) <= i, i < SV.len(s)), ord_(SV.at(s, i)) > k),
      [z3.MultiPattern(br(s, k), SV.at(s, i))])
# explicit boundary witnesses
axiom('bl_bound', [s, k], Implies(sortedV(s), And(
      Implies(bl(s, k) > 0, ord_(SV.at(s, bl(s, k) - 1)) < k),
      Implies(bl(s, k) < SV.len(s), ord_(SV.at(s, bl(s, k))) >= k))), [bl(s, k)])
axiom('br_bound', [s, k], Implies(sortedV(s), And(
      Implies(br(s, k) > 0, ord_(SV.at(s, br(s, k) - 1)) <= k),
      Implies(br(s, k) < SV.len(s), ord_(SV.at(s, br(s, k))) > k))), [br(s, k)])
axiom('bl_le_br', [s, k], Implies(sortedV(s), bl(s, k) <= br(s, k)), [z3.MultiPattern(bl(s, k), br(s, k))])

# ---- int (rank) sequences: K lists, compared as integers
u = Const('u', SIs)
sortedI = Function('sortedI', SIs, B)
axiom('sortedI_elim', [u, i, j], Implies(And(sortedI(u), 0 <= i, i <= j, j < SI.len(u)),
      SI.at(u, i) <= SI.at(u, j)), [z3.MultiPattern(sortedI(u), SI.at(u, i), SI.at(u, j))])
blI = Function('blI', SIs, I, I)
brI = Function('brI', SIs, I, I)
axiom('blI_range', [u, k], And(0 <= blI(u, k), blI(u, k) <= SI.len(u)), [blI(u, k)])
axiom('brI_range', [u, k], And(0 <= brI(u, k), brI(u, k) <= SI.len(u)), [brI(u, k)])
axiom('blI_below', [u, k, i], Implies(And(sortedI(u), 0 <= i, i < blI(u, k)), SI.at(u, i) < k),
      [z3.MultiPattern(blI(u, k), SI.at(u, i))])
axiom('blI_above', [u, k, i], Implies(And(sortedI(u), blI(u, k) <= i, i < SI.len(u)), SI.at(u, i) >= k),
      [z3.MultiPattern(blI(u, k), SI.at(u, i))])
axiom('brI_below', [u, k, i], Implies(And(sortedI(u), 0 <= i, i < brI(u, k)), SI.at(u, i) <= k),
      [z3.MultiPattern(brI(u, k), SI.at(u, i))])
axiom('brI_above', [u, k, i], Implies(And(sortedI(u), brI(u, k) <= i, i < SI.len(u)), SI.at(u, i) > k),
      [z3.MultiPattern(brI(u, k), SI.at(u, i))])
axiom('blI_bound', [u, k], Implies(sortedI(u), And(
      Implies(blI(u, k) > 0, SI.at(u, blI(u, k) - 1) < k),
      Implies(blI(u, k) < SI.len(u), SI.at(u, blI(u, k)) >= k))), [blI(u, k)])
axiom('brI_bound', [u, k], Implies(sortedI(u), And(
      Implies(brI(u, k) > 0, SI.at(u, brI(u, k) - 1) <= k),
      Implies(brI(u, k) < SI.len(u), SI.at(u, brI(u, k)) > k))), [brI(u, k)])

# ---- prefix sums and flattening of bucket lists
LL = Const('LL', SSVs)
P = Function('P', SSVs, I, I)          # P(LL,i) = sum of len(LL[j]) for j < i
flat = Function('flat', SSVs, SVs)     # concatenation of the buckets
seg = Function('seg', SSVs, I, I)      # bucket containing flat position
nL = SSV.len(LL)
inL = lambda e: SSV.at(LL, e)
axiom('P_zero', [LL], P(LL, 0) == 0, [flat(LL)])
axiom('P_total', [LL], P(LL, nL) == SV.len(flat(LL)), [flat(LL)])
axiom('P_next', [LL, i], Implies(And(0 <= i, i < nL), P(LL, i + 1) == P(LL, i) + SV.len(inL(i))),
      [z3.MultiPattern(P(LL, i), SSV.at(LL, i))])
axiom('P_mono', [LL, i, j], Implies(And(0 <= i, i < j, j <= nL), P(LL, i) + SV.len(inL(i)) <= P(LL, j)),
      [z3.MultiPattern(P(LL, i), P(LL, j))])
axiom('P_range', [LL, i], Implies(And(0 <= i, i <= nL), And(0 <= P(LL, i), P(LL, i) <= SV.len(flat(LL)))),
      [z3.MultiPattern(P(LL, i), flat(LL))])
axiom('flat_at', [LL, i, j], Implies(And(0 <= i, i < nL, 0 <= j, j < SV.len(inL(i))),
      And(SV.at(flat(LL), P(LL, i) + j) == SV.at(inL(i), j), seg(LL, P(LL, i) + j) == i)),
      [z3.MultiPattern(flat(LL), SV.at(inL(i), j))])
isbase = Function('isbase', SSVs, B)   # trigger marker, always true
axiom('flat_at_base', [LL, i, j], Implies(And(0 <= i, i < nL, 0 <= j, j < SV.len(inL(i))),
      And(SV.at(flat(LL), P(LL, i) + j) == SV.at(inL(i), j), seg(LL, P(LL, i) + j) == i)),
      [z3.MultiPattern(isbase(LL), SV.at(inL(i), j))])
axiom('flat_seg', [LL, k], Implies(And(0 <= k, k < SV.len(flat(LL))),
      And(0 <= seg(LL, k), seg(LL, k) < nL, P(LL, seg(LL, k)) <= k,
          k < P(LL, seg(LL, k)) + SV.len(inL(seg(LL, k))),
          SV.at(flat(LL), k) == SV.at(inL(seg(LL, k)), k - P(LL, seg(LL, k))))),
      [SV.at(flat(LL), k)])
MM = Const('MM', SSVs)
p = Int('p')
FL = flat(LL)
nF = SV.len(FL)
axiom('flat_emp', [], flat(SSV.emp) == SV.emp, [flat(SSV.emp)])
axiom('flat_upd', [LL, p, s], Implies(And(0 <= p, p < nL), flat(SSV.upd(LL, p, s)) ==
      SV.cat(SV.cat(SV.sl(FL, 0, P(LL, p)), s), SV.sl(FL, P(LL, p) + SV.len(inL(p)), nF))), [flat(SSV.upd(LL, p, s))])
axiom('flat_ins', [LL, p, s], Implies(And(0 <= p, p <= nL), flat(SSV.ins(LL, p, s)) ==
      SV.cat(SV.cat(SV.sl(FL, 0, P(LL, p)), s), SV.sl(FL, P(LL, p), nF))), [flat(SSV.ins(LL, p, s))])
axiom('flat_rem', [LL, p], Implies(And(0 <= p, p < nL), flat(SSV.rem(LL, p)) ==
      SV.cat(SV.sl(FL, 0, P(LL, p)), SV.sl(FL, P(LL, p) + SV.len(inL(p)), nF))), [flat(SSV.rem(LL, p))])
axiom('flat_cat', [LL, MM], flat(SSV.cat(LL, MM)) == SV.cat(flat(LL), flat(MM)), [flat(SSV.cat(LL, MM))])
axiom('flat_unit', [s], flat(SSV.unit(s)) == s, [flat(SSV.unit(s))])
axiom('flat_sl', [LL, a, b], Implies(And(0 <= a, a <= b, b <= nL), flat(SSV.sl(LL, a, b)) ==
      SV.sl(FL, P(LL, a), P(LL, b))), [flat(SSV.sl(LL, a, b))])
axiom('P_upd', [LL, p, s, i], Implies(And(0 <= p, p < nL, 0 <= i, i <= nL), P(SSV.upd(LL, p, s), i) ==
      If(i <= p, P(LL, i), P(LL, i) + SV.len(s) - SV.len(inL(p)))), [P(SSV.upd(LL, p, s), i)])
axiom('P_ins', [LL, p, s, i], Implies(And(0 <= p, p <= nL, 0 <= i, i <= nL + 1), P(SSV.ins(LL, p, s), i) ==
      If(i <= p, P(LL, i), P(LL, i - 1) + SV.len(s))), [P(SSV.ins(LL, p, s), i)])
axiom('P_rem', [LL, p, i], Implies(And(0 <= p, p < nL, 0 <= i, i <= nL - 1), P(SSV.rem(LL, p), i) ==
      If(i <= p, P(LL, i), P(LL, i + 1) - SV.len(inL(p)))), [P(SSV.rem(LL, p), i)])
# flattening of reversed bucket list with reversed buckets
revall = Function('revall', SSVs, SSVs)   # map(reversed, X) element-wise
axiom('revall_len', [LL], SSV.len(revall(LL)) == nL, [revall(LL)])
axiom('revall_at', [LL, i], Implies(And(0 <= i, i < nL), SSV.at(revall(LL), i) == SV.rev(inL(i))), [SSV.at(revall(LL), i)])
axiom('flat_rev', [LL], flat(revall(SSV.rev(LL))) == SV.rev(flat(LL)), [flat(revall(SSV.rev(LL)))])

# chunks(s, m): s cut into consecutive pieces of m elements (last may be short)
chunks = Function('chunks', SVs, I, SSVs)
flatI = Function('flatI', SSIs, SIs)
X = Const('X', SSIs)
axiom('flatI_emp', [], flatI(SSI.emp) == SI.emp, [flatI(SSI.emp)])
axiom('flatI_unit', [u], flatI(SSI.unit(u)) == u, [flatI(SSI.unit(u))])
Y = Const('Y', SSIs)
axiom('flatI_cat', [X, Y], flatI(SSI.cat(X, Y)) == SI.cat(flatI(X), flatI(Y)), [flatI(SSI.cat(X, Y))])

axiom('flatI_rev_snoc', [X, u], flatI(SSI.rev(SSI.cat(X, SSI.unit(u)))) == SI.cat(u, flatI(SSI.rev(X))),
      [flatI(SSI.rev(SSI.cat(X, SSI.unit(u))))])
axiom('flatI_rev_unit', [u], flatI(SSI.rev(SSI.unit(u))) == u, [flatI(SSI.rev(SSI.unit(u)))])
axiom('flatI_rev_last', [X, i], Implies(And(SSI.len(X) >= 1, 0 <= i, i < SI.len(SSI.at(X, SSI.len(X) - 1))),
      And(SI.len(SSI.at(X, SSI.len(X) - 1)) <= SI.len(flatI(SSI.rev(X))),
          SI.at(flatI(SSI.rev(X)), i) == SI.at(SSI.at(X, SSI.len(X) - 1), i))), [SI.at(flatI(SSI.rev(X)), i)])

# ---- mapping a value sequence to its ranks
mapord = Function('mapord', SVs, SIs)
axiom('mapord_len', [s], SI.len(mapord(s)) == SV.len(s), [mapord(s)])
axiom('mapord_at', [s, i], Implies(And(0 <= i, i < SV.len(s)), SI.at(mapord(s), i) == ord_(SV.at(s, i))),
      [SI.at(mapord(s), i)])
axiom('mapord_at2', [s, i], Implies(And(0 <= i, i < SV.len(s)), SI.at(mapord(s), i) == ord_(SV.at(s, i))),
      [z3.MultiPattern(mapord(s), SV.at(s, i))])
axiom('mapord_sorted', [s], sortedI(mapord(s)) == sortedV(s), [mapord(s)])
axiom('mapord_bl', [s, k], blI(mapord(s), k) == bl(s, k), [blI(mapord(s), k)])
axiom('mapord_br', [s, k], brI(mapord(s), k) == br(s, k), [brI(mapord(s), k)])

# sortedness of pieces
axiom('sorted_emp', [], sortedV(SV.emp), [sortedV(SV.emp)])
axiom('sorted_unit', [v], sortedV(SV.unit(v)), [sortedV(SV.unit(v))])
axiom('sorted_sl', [s, a, b], Implies(And(sortedV(s), 0 <= a, a <= b, b <= SV.len(s)), sortedV(SV.sl(s, a, b))), [sortedV(SV.sl(s, a, b))])
axiom('sorted_cat', [s, t], sortedV(SV.cat(s, t)) == And(sortedV(s), sortedV(t), Or(SV.len(s) == 0, SV.len(t) == 0,
      ord_(SV.at(s, SV.len(s) - 1)) <= ord_(SV.at(t, 0)))), [sortedV(SV.cat(s, t))])

# every bucket of a sorted flattening is sorted
axiom('flat_sorted', [LL, i], Implies(And(sortedV(flat(LL)), 0 <= i, i < nL), sortedV(inL(i))),
      [z3.MultiPattern(sortedV(flat(LL)), inL(i))])

# ---- stable sort by rank (Python's sorted())
ssort = Function('ssort', SVs, SVs)
axiom('ssort_sorted', [s], And(sortedV(ssort(s)), SV.len(ssort(s)) == SV.len(s)), [ssort(s)])
axiom('ssort_id', [s], Implies(sortedV(s), ssort(s) == s), [ssort(s)])
axiom('ssort_cat', [s, t], ssort(SV.cat(s, ssort(t))) == ssort(SV.cat(s, t)), [ssort(SV.cat(s, ssort(t)))])
axiom('ssort_cat_l', [s, t], ssort(SV.cat(ssort(s), t)) == ssort(SV.cat(s, t)), [ssort(SV.cat(ssort(s), t))])
axiom('ssort_snoc', [F, s, i, j], Implies(And(0 <= i, i < SV.len(s), j == i + 1),
      ssort(SV.cat(F, SV.sl(s, 0, j))) ==
      SV.ins(ssort(SV.cat(F, SV.sl(s, 0, i))), br(ssort(SV.cat(F, SV.sl(s, 0, i))), ord_(SV.at(s, i))), SV.at(s, i))),
      [z3.MultiPattern(ssort(SV.cat(F, SV.sl(s, 0, i))), ssort(SV.cat(F, SV.sl(s, 0, j))))])
axiom('ssort_add', [F, v], Implies(sortedV(F), ssort(SV.cat(F, SV.unit(v))) == SV.ins(F, br(F, ord_(v)), v)),
      [ssort(SV.cat(F, SV.unit(v)))])
axiom('cat_sl0', [s, t], SV.cat(s, SV.sl(t, 0, 0)) == s, [SV.cat(s, SV.sl(t, 0, 0))])
axiom('cat_emp', [s], And(SV.cat(s, SV.emp) == s, SV.cat(SV.emp, s) == s), [SV.cat(s, SV.emp), SV.cat(SV.emp, s)])
axiom('sl_full', [s, i], Implies(i == SV.len(s), SV.sl(s, 0, i) == s), [SV.sl(s, 0, i)])
nsort = Function('nsort', SVs, SVs)    # sort by the natural order, when that is not the collection's order
axiom('nsort_len', [s], SV.len(nsort(s)) == SV.len(s), [nsort(s)])

# ---- first difference of two sequences
fdiff = Function('fdiff', SVs, SVs, I)
axiom('fdiff', [s, t], And(0 <= fdiff(s, t), fdiff(s, t) <= SV.len(s), fdiff(s, t) <= SV.len(t),
      Or(fdiff(s, t) == SV.len(s), fdiff(s, t) == SV.len(t), Not(eqc(SV.at(s, fdiff(s, t))) == eqc(SV.at(t, fdiff(s, t)))))), [fdiff(s, t)])
axiom('fdiff_min', [s, t, i], Implies(And(0 <= i, i < fdiff(s, t)), eqc(SV.at(s, i)) == eqc(SV.at(t, i))),
      [z3.MultiPattern(fdiff(s, t), SV.at(s, i)), z3.MultiPattern(fdiff(s, t), SV.at(t, i))])

# ---- equality search
first = Function('first', SVs, V, I)
axiom('first_range', [s, v], And(0 <= first(s, v), first(s, v) <= SV.len(s),
      Implies(first(s, v) < SV.len(s), EQ(SV.at(s, first(s, v)), v))), [first(s, v)])
axiom('first_min', [s, v, i], Implies(And(0 <= i, i < first(s, v)), Not(EQ(SV.at(s, i), v))),
      [z3.MultiPattern(first(s, v), SV.at(s, i))])
# first position at or after a holding a value equal to v (len if none)
firstf = Function('firstf', SVs, V, I, I)
axiom('firstf_range', [s, v, a], Implies(And(0 <= a, a <= SV.len(s)), And(a <= firstf(s, v, a), firstf(s, v, a) <= SV.len(s),
      Implies(firstf(s, v, a) < SV.len(s), EQ(SV.at(s, firstf(s, v, a)), v)))), [firstf(s, v, a)])
axiom('firstf_min', [s, v, a, i], Implies(And(0 <= a, a <= i, i < firstf(s, v, a)), Not(EQ(SV.at(s, i), v))),
      [z3.MultiPattern(firstf(s, v, a), SV.at(s, i))])
cnt = Function('cnt', SVs, V, I, I)
axiom('cnt_zero', [s, v], cnt(s, v, 0) == 0, [cnt(s, v, 0)])
axiom('cnt_step', [s, v, i, j], Implies(And(0 <= i, i < SV.len(s), j == i + 1),
      cnt(s, v, j) == cnt(s, v, i) + If(EQ(SV.at(s, i), v), 1, 0)),
      [z3.MultiPattern(cnt(s, v, i), cnt(s, v, j))])
# consequences of  a == b  ==>  rank(a) == rank(b)
axiom('cnt_lo', [s, v, i], Implies(And(sortedV(s), 0 <= i, i <= bl(s, ord_(v))), cnt(s, v, i) == 0), [cnt(s, v, i)])
axiom('cnt_hi', [s, v, i], Implies(And(sortedV(s), br(s, ord_(v)) <= i, i <= SV.len(s)),
      cnt(s, v, i) == cnt(s, v, SV.len(s))), [cnt(s, v, i)])

axiom('cnt_plain', [s, v], Implies(And(isplain, sortedV(s)), cnt(s, v, SV.len(s)) == br(s, ord_(v)) - bl(s, ord_(v))),
      [cnt(s, v, SV.len(s))])
axiom('first_plain', [s, v], Implies(And(isplain, sortedV(s)), first(s, v) == If(bl(s, ord_(v)) < br(s, ord_(v)), bl(s, ord_(v)), SV.len(s))),
      [first(s, v)])
axiom('firstf_plain', [s, v, a], Implies(And(isplain, sortedV(s), 0 <= a, a <= SV.len(s)), firstf(s, v, a) ==
      If(bl(s, ord_(v)) >= br(s, ord_(v)), SV.len(s), If(a < bl(s, ord_(v)), bl(s, ord_(v)), If(a < br(s, ord_(v)), a, SV.len(s))))),
      [firstf(s, v, a)])

# ---- chunks
axiom('chunks_len', [s, m], Implies(m >= 1, And((SSV.len(chunks(s, m)) == 0) == (SV.len(s) == 0), flat(chunks(s, m)) == s)),
      [chunks(s, m)])
axiom('chunks_at', [s, m, i], Implies(And(m >= 1, 0 <= i, i < SSV.len(chunks(s, m))),
      And(1 <= SV.len(SSV.at(chunks(s, m), i)), SV.len(SSV.at(chunks(s, m), i)) <= m,
          Implies(i < SSV.len(chunks(s, m)) - 1, SV.len(SSV.at(chunks(s, m), i)) == m))),
      [SSV.at(chunks(s, m), i)])

# ---- halves and powers of two
hlf = Function('hlf', I, I)            # floor(x/2)
axiom('hlf', [i], And(2 * hlf(i) <= i, i <= 2 * hlf(i) + 1), [hlf(i)])
pow2 = Function('pow2', I, B)          # x is a power of two (>= 1)
axiom('pow2_pos', [i], Implies(pow2(i), And(i >= 1, Or(i == 1, i == 2 * hlf(i)))), [pow2(i)])
axiom('pow2_half', [i], Implies(And(pow2(i), i != 1), pow2(hlf(i))), [z3.MultiPattern(pow2(i), hlf(i))])
axiom('pow2_dbl', [i, j], Implies(And(pow2(i), j == 2 * i), pow2(j)), [z3.MultiPattern(pow2(i), pow2(j))])
axiom('pow2_one', [i], Implies(Or(i == 1, i == 2), pow2(i)), [pow2(i)])
# ceil-power: 2 ** (floor(log2(x)) + 1)
npow = Function('npow', I, I)
axiom('npow', [i], Implies(i >= 1, And(pow2(npow(i)), npow(i) > i, npow(i) <= 2 * i)), [npow(i)])

# ---- positional index tree (implicit binary tree, sums of children)
treeok = Function('treeok', SIs, I, SSVs, B)
LS = Function('LS', SIs, I, I)         # sum of the left siblings on the way to the root
tn = Function('tn', I, B)              # trigger marker, always true
Ix = Const('Ix', SIs)
off = Int('off')


def ival(Ix, j):
    return If(And(0 <= j, j < SI.len(Ix)), SI.at(Ix, j), IntVal(0))


def tree_components(Ix, off, LL, pend=None, d=0):
    """The tree property, node by node.  `pend` (optional) names one node whose
    stored sum is `d` short of what it should be."""
    n = SSV.len(LL)
    i, k = Ints('ti tk')
    dl = (lambda e: IntVal(0)) if pend is None else (lambda e: If(e == pend, d, IntVal(0)))
    return [
        ('shape', And(off >= 0, pow2(off + 1), n >= 2, n <= off + 1, SI.len(Ix) == off + n)),
        ('leaf', ForAll([i], Implies(And(0 <= i, i < n), SI.at(Ix, off + i) + dl(off + i) == SV.len(SSV.at(LL, i))),
                        patterns=[SSV.at(LL, i)])),
        ('node', ForAll([k], Implies(And(0 <= k, k < off), SI.at(Ix, k) + dl(k) == ival(Ix, 2 * k + 1) + ival(Ix, 2 * k + 2)),
                        patterns=[tn(k)])),
    ]


def LS_unfold(Ix, c):
    return LS(Ix, c) == If(c <= 0, IntVal(0),
                           If(2 * hlf(c) == c, ival(Ix, c - 1) + LS(Ix, hlf(c - 1)), LS(Ix, hlf(c - 1))))


axiom('LS_leaf', [Ix, off, LL, j], Implies(And(treeok(Ix, off, LL), off <= j, j < off + nL),
      LS(Ix, j) == P(LL, j - off)), [z3.MultiPattern(treeok(Ix, off, LL), LS(Ix, j))])
axiom('tree_root', [Ix, off, LL], Implies(treeok(Ix, off, LL), And(SI.at(Ix, 0) == P(LL, nL), LS(Ix, 0) == 0)),
      [treeok(Ix, off, LL)])

# ---- sets of values
Set = DeclareSort('Set')
S, T, U = Const('S', Set), Const('T', Set), Const('U', Set)
mem = Function('mem', Set, V, B)
setof = Function('setof', SVs, Set)
hi = Function('hi', SVs, V, I)
semp = Const('emp_set', Set)
sunion = Function('sunion', Set, Set, Set)
sinter = Function('sinter', Set, Set, Set)
sdiff = Function('sdiff', Set, Set, Set)
ssym = Function('ssym', Set, Set, Set)
sadd = Function('sadd', Set, V, Set)
sdel = Function('sdel', Set, V, Set)
card = Function('card', Set, I)
seqof = Function('seqof', Set, SVs)     # iteration order of a set: some enumeration
distinct = Function('distinct', SVs, B)
axiom('mem_emp', [v], Not(mem(semp, v)), [mem(semp, v)])
axiom('mem_setof', [s, v], Implies(mem(setof(s), v), And(0 <= hi(s, v), hi(s, v) < SV.len(s), SV.at(s, hi(s, v)) == v)),
      [mem(setof(s), v)])
axiom('mem_at', [s, i], Implies(And(0 <= i, i < SV.len(s)), mem(setof(s), SV.at(s, i))),
      [z3.MultiPattern(setof(s), SV.at(s, i))])
axiom('mem_union', [S, T, v], mem(sunion(S, T), v) == Or(mem(S, v), mem(T, v)), [mem(sunion(S, T), v)])
axiom('mem_inter', [S, T, v], mem(sinter(S, T), v) == And(mem(S, v), mem(T, v)), [mem(sinter(S, T), v)])
axiom('mem_diff', [S, T, v], mem(sdiff(S, T), v) == And(mem(S, v), Not(mem(T, v))), [mem(sdiff(S, T), v)])
axiom('mem_sym', [S, T, v], mem(ssym(S, T), v) == (mem(S, v) != mem(T, v)), [mem(ssym(S, T), v)])
axiom('mem_add', [S, w, v], mem(sadd(S, w), v) == Or(v == w, mem(S, v)), [mem(sadd(S, w), v)])
axiom('mem_del', [S, w, v], mem(sdel(S, w), v) == And(v != w, mem(S, v)), [mem(sdel(S, w), v)])
axiom('setof_emp', [], setof(SV.emp) == semp, [setof(SV.emp)])
axiom('setof_unit', [v], setof(SV.unit(v)) == sadd(semp, v), [setof(SV.unit(v))])
axiom('setof_cat', [s, t], setof(SV.cat(s, t)) == sunion(setof(s), setof(t)), [setof(SV.cat(s, t))])
axiom('setof_ins', [s, i, v], Implies(And(0 <= i, i <= SV.len(s)), setof(SV.ins(s, i, v)) == sadd(setof(s), v)),
      [setof(SV.ins(s, i, v))])
axiom('setof_rem', [s, i], Implies(And(distinct(s), 0 <= i, i < SV.len(s)), setof(SV.rem(s, i)) == sdel(setof(s), SV.at(s, i))),
      [setof(SV.rem(s, i))])
# ---- multiplicity of one and the same value
occ = Function('occ', SVs, V, I)
w_ = Const('w_', V)
axiom('occ_emp', [v], occ(SV.emp, v) == 0, [occ(SV.emp, v)])
axiom('occ_unit', [v, w_], occ(SV.unit(w_), v) == If(w_ == v, 1, 0), [occ(SV.unit(w_), v)])
axiom('occ_cat', [s, t, v], occ(SV.cat(s, t), v) == occ(s, v) + occ(t, v), [occ(SV.cat(s, t), v)])
axiom('occ_ssort', [s, v], occ(ssort(s), v) == occ(s, v), [occ(ssort(s), v)])
axiom('occ_rev', [s, v], occ(SV.rev(s), v) == occ(s, v), [occ(SV.rev(s), v)])
axiom('occ_ins', [s, i, w_, v], Implies(And(0 <= i, i <= SV.len(s)), occ(SV.ins(s, i, w_), v) == occ(s, v) + If(w_ == v, 1, 0)), [occ(SV.ins(s, i, w_), v)])
axiom('occ_rem', [s, i, v], Implies(And(0 <= i, i < SV.len(s)), occ(SV.rem(s, i), v) == occ(s, v) - If(SV.at(s, i) == v, 1, 0)), [occ(SV.rem(s, i), v)])
axiom('occ_upd', [s, i, w_, v], Implies(And(0 <= i, i < SV.len(s)), occ(SV.upd(s, i, w_), v) == occ(s, v) - If(SV.at(s, i) == v, 1, 0) + If(w_ == v, 1, 0)), [occ(SV.upd(s, i, w_), v)])
axiom('occ_sl', [s, i, j, v], Implies(And(0 <= i, i <= j, j <= SV.len(s)),
      occ(SV.sl(s, 0, i), v) + occ(SV.sl(s, i, j), v) == occ(SV.sl(s, 0, j), v)), [z3.MultiPattern(occ(SV.sl(s, 0, i), v), occ(SV.sl(s, i, j), v))])

axiom('setof_ssort', [s], setof(ssort(s)) == setof(s), [setof(ssort(s))])
axiom('setof_rev', [s], setof(SV.rev(s)) == setof(s), [setof(SV.rev(s))])
axiom('setof_snoc', [s, i, j], Implies(And(0 <= i, i < SV.len(s), j == i + 1), setof(SV.sl(s, 0, j)) == sadd(setof(SV.sl(s, 0, i)), SV.at(s, i))),
      [z3.MultiPattern(setof(SV.sl(s, 0, i)), setof(SV.sl(s, 0, j)))])
axiom('distinct_elim', [s, i, j], Implies(And(distinct(s), 0 <= i, i < SV.len(s), 0 <= j, j < SV.len(s), SV.at(s, i) == SV.at(s, j)), i == j),
      [z3.MultiPattern(distinct(s), SV.at(s, i), SV.at(s, j))])
axiom('distinct_emp', [], distinct(SV.emp), [distinct(SV.emp)])
axiom('distinct_unit', [v], distinct(SV.unit(v)), [distinct(SV.unit(v))])
axiom('distinct_ins', [s, i, v], Implies(And(distinct(s), 0 <= i, i <= SV.len(s), Not(mem(setof(s), v))), distinct(SV.ins(s, i, v))),
      [distinct(SV.ins(s, i, v))])
axiom('distinct_rem', [s, i], Implies(And(distinct(s), 0 <= i, i < SV.len(s)), distinct(SV.rem(s, i))), [distinct(SV.rem(s, i))])
axiom('distinct_sl', [s, i, j], Implies(And(distinct(s), 0 <= i, i <= j, j <= SV.len(s)), distinct(SV.sl(s, i, j))), [distinct(SV.sl(s, i, j))])
axiom('distinct_ssort', [s], distinct(ssort(s)) == distinct(s), [distinct(ssort(s))])
axiom('seqof', [S], And(distinct(seqof(S)), setof(seqof(S)) == S, SV.len(seqof(S)) == card(S)), [seqof(S)])
axiom('card_setof', [s], Implies(distinct(s), card(setof(s)) == SV.len(s)), [z3.MultiPattern(distinct(s), setof(s))])
axiom('card_nonneg', [S], And(card(S) >= 0, (card(S) == 0) == (S == semp)), [card(S)])

# ---- finite maps (dict contents)
Map = DeclareSort('Map')
D, E = Const('D', Map), Const('E', Map)
dom = Function('dom', Map, Set)
val = Function('val', Map, V, V)
memp = Const('emp_map', Map)
mput = Function('mput', Map, V, V, Map)
mdel = Function('mdel', Map, V, Map)
mmerge = Function('mmerge', Map, Map, Map)        # right operand wins
mpairs = Function('mpairs', SVs, SVs, Map)        # dict(zip(ks, vs)), last wins
mvals = Function('mvals', Map, SVs, SVs)          # [m[k] for k in ks]
x = Const('x', V)
ks, vs_ = Const('ks', SVs), Const('vs', SVs)
axiom('dom_emp', [], dom(memp) == semp, [memp])
axiom('dom_put', [D, w, x], And(dom(mput(D, w, x)) == sadd(dom(D), w), val(mput(D, w, x), w) == x), [mput(D, w, x)])
axiom('val_put', [D, w, x, v], val(mput(D, w, x), v) == If(v == w, x, val(D, v)), [val(mput(D, w, x), v)])
axiom('dom_del', [D, w], dom(mdel(D, w)) == sdel(dom(D), w), [mdel(D, w)])
axiom('val_del', [D, w, v], Implies(v != w, val(mdel(D, w), v) == val(D, v)), [val(mdel(D, w), v)])
axiom('dom_merge', [D, E], dom(mmerge(D, E)) == sunion(dom(D), dom(E)), [mmerge(D, E)])
axiom('val_merge', [D, E, v], val(mmerge(D, E), v) == If(mem(dom(E), v), val(E, v), val(D, v)), [val(mmerge(D, E), v)])
axiom('mvals_len', [D, ks], SV.len(mvals(D, ks)) == SV.len(ks), [mvals(D, ks)])
axiom('mvals_at', [D, ks, i], Implies(And(0 <= i, i < SV.len(ks)), SV.at(mvals(D, ks), i) == val(D, SV.at(ks, i))), [SV.at(mvals(D, ks), i)])
axiom('dom_pairs', [ks, vs_], Implies(SV.len(ks) == SV.len(vs_), dom(mpairs(ks, vs_)) == setof(ks)), [mpairs(ks, vs_)])
axiom('val_pairs_vals', [D, ks, v], Implies(mem(setof(ks), v), val(mpairs(ks, mvals(D, ks)), v) == val(D, v)),
      [val(mpairs(ks, mvals(D, ks)), v)])
axiom('pairs_cat', [s, t, ks, vs_], Implies(SV.len(s) == SV.len(t), mpairs(SV.cat(s, ks), SV.cat(t, vs_)) == mmerge(mpairs(s, t), mpairs(ks, vs_))),
      [mpairs(SV.cat(s, ks), SV.cat(t, vs_))])
mminus = Function('mminus', Map, Set, Map)        # without the keys of a set
axiom('dom_minus', [D, S], dom(mminus(D, S)) == sdiff(dom(D), S), [mminus(D, S)])
axiom('val_minus', [D, S, v], Implies(Not(mem(S, v)), val(mminus(D, S), v) == val(D, v)), [val(mminus(D, S), v)])
konst = Function('konst', V, I, SVs)              # x repeated n times
axiom('konst', [x, i], Implies(i >= 0, SV.len(konst(x, i)) == i), [konst(x, i)])
axiom('konst_at', [x, i, j], Implies(And(0 <= j, j < i), SV.at(konst(x, i), j) == x), [SV.at(konst(x, i), j)])
axiom('val_konst', [ks, x, v], Implies(mem(setof(ks), v), val(mpairs(ks, konst(x, SV.len(ks))), v) == x),
      [val(mpairs(ks, konst(x, SV.len(ks))), v)])

# ---- subset
subset = Function('subset', Set, Set, B)
axiom('subset_elim', [S, T, v], Implies(And(subset(S, T), mem(S, v)), mem(T, v)),
      [z3.MultiPattern(subset(S, T), mem(S, v)), z3.MultiPattern(subset(S, T), mem(T, v))])
axiom('disjoint_elim', [S, T, v], Implies(And(subset(sinter(S, T), semp), mem(S, v)), Not(mem(T, v))),
      [z3.MultiPattern(subset(sinter(S, T), semp), mem(S, v))])
sub_w = Function('sub_w', Set, Set, V)
axiom('subset_intro', [S, T], Or(subset(S, T), And(mem(S, sub_w(S, T)), Not(mem(T, sub_w(S, T))))), [subset(S, T)])

axiom('subset_ext', [S, T], Implies(And(subset(S, T), subset(T, S)), S == T), [z3.MultiPattern(subset(S, T), subset(T, S))])
# ---- a duplicate, if there is one
dw1, dw2 = Function('dw1', SVs, I), Function('dw2', SVs, I)
axiom('distinct_intro', [s], Or(distinct(s), And(0 <= dw1(s), dw1(s) < dw2(s), dw2(s) < SV.len(s), SV.at(s, dw1(s)) == SV.at(s, dw2(s)))), [distinct(s)])
# ---- how often a value occurs where nothing occurs twice: once, or an equal value that is another one is in the way
cw = Function('cw', SVs, V, I)
axiom('cnt_distinct', [s, v], Implies(distinct(s), Or(cnt(s, v, SV.len(s)) == If(mem(setof(s), v), 1, 0),
      And(0 <= cw(s, v), cw(s, v) < SV.len(s), EQ(SV.at(s, cw(s, v)), v), SV.at(s, cw(s, v)) != v))),
      [z3.MultiPattern(distinct(s), cnt(s, v, SV.len(s)))])
# ---- sizes of sets: the same size as a part is the same set
axiom('card_sunion', [S, T], And(card(S) <= card(sunion(S, T)), card(T) <= card(sunion(S, T)), card(sunion(S, T)) <= card(S) + card(T),
      Implies(card(sunion(S, T)) == card(S), sunion(S, T) == S), Implies(card(sunion(S, T)) == card(T), sunion(S, T) == T)), [card(sunion(S, T))])
axiom('card_sinter', [S, T], And(card(sinter(S, T)) <= card(S), card(sinter(S, T)) <= card(T),
      Implies(card(sinter(S, T)) == card(S), sinter(S, T) == S), Implies(card(sinter(S, T)) == card(T), sinter(S, T) == T)), [card(sinter(S, T))])
axiom('card_sdiff', [S, T], And(card(sdiff(S, T)) <= card(S), Implies(card(sdiff(S, T)) == card(S), sdiff(S, T) == S)), [card(sdiff(S, T))])
axiom('mem_sl', [s, a, b, v], Implies(And(distinct(s), 0 <= a, a <= b, b <= SV.len(s)),
      mem(setof(SV.sl(s, a, b)), v) == And(mem(setof(s), v), a <= hi(s, v), hi(s, v) < b)), [mem(setof(SV.sl(s, a, b)), v)])
# ---- a map restricted to some keys
mrestr = Function('mrestr', Map, Set, Map)
axiom('dom_restr', [D, S], dom(mrestr(D, S)) == sinter(dom(D), S), [mrestr(D, S)])
axiom('val_restr', [D, S, v], Implies(mem(sinter(dom(D), S), v), val(mrestr(D, S), v) == val(D, v)), [val(mrestr(D, S), v)])

# ---- ranges with a symbolic step: a, a+st, a+2st ...  (mulf is multiplication)
mulf = Function('mulf', I, I, I)
rlen = Function('rlen', I, I, I, I)
st_ = Int('st')
axiom('mulf_zero', [st_], mulf(0, st_) == 0, [mulf(0, st_)])
axiom('rlen_pos', [a, b, st_], Implies(st_ > 0, And(rlen(a, b, st_) >= 0, (rlen(a, b, st_) > 0) == (a < b))), [rlen(a, b, st_)])
axiom('rlen_neg', [a, b, st_], Implies(st_ < 0, And(rlen(a, b, st_) >= 0, (rlen(a, b, st_) > 0) == (a > b))), [rlen(a, b, st_)])
axiom('rlen_in', [a, b, st_, i], Implies(And(0 <= i, i < rlen(a, b, st_), st_ > 0),
      And(a + i <= a + mulf(i, st_), a + mulf(i, st_) < b - (rlen(a, b, st_) - 1 - i))), [z3.MultiPattern(rlen(a, b, st_), mulf(i, st_))])
axiom('rlen_in_neg', [a, b, st_, i], Implies(And(0 <= i, i < rlen(a, b, st_), st_ < 0),
      And(a + mulf(i, st_) <= a - i, b + (rlen(a, b, st_) - 1 - i) < a + mulf(i, st_))), [z3.MultiPattern(rlen(a, b, st_), mulf(i, st_))])
# sequential removal of the positions of a range, highest first
rms = Function('rms', SVs, I, I, I, I, SVs)       # rms(F, a, n, st, i): after i removals
axiom('rms_zero', [F, a, n, st_], rms(F, a, n, st_, 0) == F, [rms(F, a, n, st_, 0)])
axiom('rms_step', [F, a, n, st_, i, j], Implies(And(0 <= i, i < n, j == i + 1),
      rms(F, a, n, st_, j) == SV.rem(rms(F, a, n, st_, i), If(st_ > 0, a + mulf(n - 1 - i, st_), a + mulf(i, st_)))),
      [z3.MultiPattern(rms(F, a, n, st_, i), rms(F, a, n, st_, j))])
axiom('rms_len', [F, a, b, st_, i], Implies(And(0 <= i, i <= rlen(a, b, st_), st_ != 0, Implies(st_ > 0, And(0 <= a, b <= SV.len(F))),
      Implies(st_ < 0, And(a < SV.len(F), b >= -1))),
      SV.len(rms(F, a, rlen(a, b, st_), st_, i)) == SV.len(F) - i), [rms(F, a, rlen(a, b, st_), st_, i)])

# the elements at the positions of a range
selseq = Function('selseq', SVs, I, I, I, SVs)    # selseq(F, a, n, st)
axiom('selseq_len', [F, a, n, st_], Implies(n >= 0, SV.len(selseq(F, a, n, st_)) == n), [selseq(F, a, n, st_)])
axiom('selseq_at', [F, a, n, st_, i], Implies(And(0 <= i, i < n), SV.at(selseq(F, a, n, st_), i) == SV.at(F, a + mulf(i, st_))), [SV.at(selseq(F, a, n, st_), i)])
rngok = lambda F, a, b, st_: And(st_ != 0, Implies(st_ > 0, And(0 <= a, b <= SV.len(F))), Implies(st_ < 0, And(a < SV.len(F), b >= -1)))
axiom('selseq_distinct', [F, a, b, st_], Implies(And(distinct(F), rngok(F, a, b, st_)), distinct(selseq(F, a, rlen(a, b, st_), st_))), [selseq(F, a, rlen(a, b, st_), st_)])
axiom('selseq_sub', [F, a, b, st_], Implies(rngok(F, a, b, st_), subset(setof(selseq(F, a, rlen(a, b, st_), st_)), setof(F))), [setof(selseq(F, a, rlen(a, b, st_), st_))])
axiom('setof_rms', [F, a, b, st_], Implies(And(distinct(F), rngok(F, a, b, st_)),
      setof(rms(F, a, rlen(a, b, st_), st_, rlen(a, b, st_))) == sdiff(setof(F), setof(selseq(F, a, rlen(a, b, st_), st_)))),
      [setof(rms(F, a, rlen(a, b, st_), st_, rlen(a, b, st_)))])
axiom('distinct_rms', [F, a, b, st_, i], Implies(And(distinct(F), rngok(F, a, b, st_), 0 <= i, i <= rlen(a, b, st_)), distinct(rms(F, a, rlen(a, b, st_), st_, i))),
      [distinct(rms(F, a, rlen(a, b, st_), st_, i))])

# ---- eliminations for the positional index predicate
axiom('treeok_shape', [Ix, off, LL], Implies(treeok(Ix, off, LL),
      And(off >= 0, pow2(off + 1), nL >= 2, nL <= off + 1, SI.len(Ix) == off + nL)), [treeok(Ix, off, LL)])
axiom('treeok_leaf', [Ix, off, LL, i], Implies(And(treeok(Ix, off, LL), 0 <= i, i < nL),
      SI.at(Ix, off + i) == SV.len(inL(i))), [z3.MultiPattern(treeok(Ix, off, LL), inL(i))])
axiom('treeok_node', [Ix, off, LL, k], Implies(And(treeok(Ix, off, LL), 0 <= k, k < off),
      SI.at(Ix, k) == ival(Ix, 2 * k + 1) + ival(Ix, 2 * k + 2)), [z3.MultiPattern(treeok(Ix, off, LL), tn(k))])
flog2 = Function('flog2', I, I)        # floor(log2(x))



# smart constructors for the empty cases
def DOM(m):
    return semp if m.eq(memp) else dom(m)


def CARD(S_):
    return IntVal(0) if S_.eq(semp) else card(S_)


def SEQOF(S_):
    return SV.emp if S_.eq(semp) else seqof(S_)


def SSORT(s_):
    return SV.emp if s_.eq(SV.emp) else ssort(s_)


def rewrites():
    """The equations behind the smart constructors (LEN, CAT, AT, SL, UPD, REM,
    INS, _drop_upd), as statements for lean/."""
    out = []
    x, y = Const('x', V), Const('y', V)
    T = SV
    inr = lambda e, n: And(0 <= e, e < n)
    ln = T.len(s)
    for nm, vs, body in (
            ('at_unit', [x], T.at(T.unit(x), 0) == x),
            ('at_upd_eq', [s, i, x], Implies(inr(i, ln), T.at(T.upd(s, i, x), i) == x)),
            ('at_upd_ne', [s, i, j, x], Implies(And(inr(i, ln), inr(j, ln), i != j), T.at(T.upd(s, j, x), i) == T.at(s, i))),
            ('at_ins_eq', [s, i, x], Implies(And(0 <= i, i <= ln), T.at(T.ins(s, i, x), i) == x)),
            ('at_ins_lt', [s, i, j, x], Implies(And(0 <= j, j <= ln, 0 <= i, i < j), T.at(T.ins(s, j, x), i) == T.at(s, i))),
            ('at_ins_gt', [s, i, j, x], Implies(And(0 <= j, j <= ln, j < i, i <= ln), T.at(T.ins(s, j, x), i) == T.at(s, i - 1))),
            ('at_rem_lt', [s, i, j], Implies(And(inr(j, ln), 0 <= i, i < j), T.at(T.rem(s, j), i) == T.at(s, i))),
            ('at_rem_ge', [s, i, j], Implies(And(inr(j, ln), j <= i, i < ln - 1), T.at(T.rem(s, j), i) == T.at(s, i + 1))),
            ('at_cat_unit_l', [s, x], T.at(T.cat(T.unit(x), s), 0) == x),
            ('at_cat_unit_r', [s, x], T.at(T.cat(s, T.unit(x)), ln) == x),
            ('sl_all', [s], T.sl(s, 0, ln) == s),
            ('sl_none', [s, i], Implies(And(0 <= i, i <= ln), T.sl(s, i, i) == T.emp)),
            ('card_semp', [], card(semp) == 0),
            ('seqof_semp', [], seqof(semp) == T.emp),
            ('ssort_emp', [], ssort(T.emp) == T.emp),
            ('upd_upd', [s, i, x, y], Implies(inr(i, ln), T.upd(T.upd(s, i, x), i, y) == T.upd(s, i, y))),
            ('upd_upd_ne', [s, i, j, x, y], Implies(And(inr(i, ln), inr(j, ln), i != j),
             T.upd(T.upd(s, j, y), i, x) == T.upd(T.upd(s, i, x), j, y))),
            ('upd_ins_eq', [s, i, x, y], Implies(And(0 <= i, i <= ln), T.upd(T.ins(s, i, x), i, y) == T.ins(s, i, y))),
            ('upd_ins_lt', [s, i, j, x, y], Implies(And(0 <= j, j <= ln, 0 <= i, i < j),
             T.upd(T.ins(s, j, x), i, y) == T.ins(T.upd(s, i, y), j, x))),
            ('upd_ins_gt', [s, i, j, x, y], Implies(And(0 <= j, j < i, i <= ln),
             T.upd(T.ins(s, j, x), i, y) == T.ins(T.upd(s, i - 1, y), j, x))),
            ('upd_rem_lt', [s, i, j, y], Implies(And(inr(j, ln), 0 <= i, i < j),
             T.upd(T.rem(s, j), i, y) == T.rem(T.upd(s, i, y), j))),
            ('upd_rem_ge', [s, i, j, y], Implies(And(inr(j, ln), j <= i, i < ln - 1),
             T.upd(T.rem(s, j), i, y) == T.rem(T.upd(s, i + 1, y), j))),
            ('rem_upd', [s, i, x], Implies(inr(i, ln), T.rem(T.upd(s, i, x), i) == T.rem(s, i))),
            ('rem_upd_upd', [s, i, j, x, y], Implies(And(inr(i, ln), inr(j, ln), i != j),
             T.rem(T.upd(T.upd(s, i, x), j, y), i) == T.rem(T.upd(s, j, y), i))),
            ('rem_ins', [s, i, x], Implies(And(0 <= i, i <= ln), T.rem(T.ins(s, i, x), i) == s)),
            ('ins_rem', [s, i, x], Implies(inr(i, ln), T.ins(T.rem(s, i), i, x) == T.upd(s, i, x)))):
        out.append(('rw_' + nm, vs, body))
    return out


AX_BY_NAME = {nm: f for nm, f, *_ in AXIOMS}


def relevant_axioms(exprs):
    syms = set()
    for e in exprs:
        _syms(e, syms)
    chosen, rest = [], list(AXIOMS)
    changed = True
    while changed:
        changed = False
        keep = []
        for ax_ in rest:
            if any(tr <= syms for tr in ax_[2]) or not ax_[2]:
                chosen.append(ax_)
                if not ax_[3] <= syms:
                    syms |= ax_[3]
                    changed = True
            else:
                keep.append(ax_)
        rest = keep
    return chosen
