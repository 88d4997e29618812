#!/usr/bin/env python3-vt
"""Write lean/Statements.lean and lean/Check.lean from the axioms in
pyvc/logic.py: one Lean proposition per axiom, translated from the z3 terms the
solver is given.  The proofs (lean/Proofs.lean) are about these propositions."""
import os
import sys

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'pyvc'))
import logic as L  # noqa: E402

SORT = {'V': 'V', 'Int': 'Int', 'SV': 'List V', 'SI': 'List Int', 'SSV': 'List (List V)',
        'SSI': 'List (List Int)', 'Set': 'Finset V', 'Map': 'Mp V', 'Bool': 'Prop'}
SEQ = {'V', 'I', 'SV', 'SI'}
CONST = {'emp_set': '(∅ : Finset V)', 'emp_map': '(memp : Mp V)', 'isplain': '(isplain V)',
         'emp_V': '([] : List V)', 'emp_I': '([] : List Int)', 'emp_SV': '([] : List (List V))',
         'emp_SI': '([] : List (List Int))'}
RES = {'first': 'first_', 'at': 'at_', 'val': 'val', 'mem': 'mem', 'seg': 'seg'}


def lname(n):
    if '_' in n:
        a, b = n.rsplit('_', 1)
        if b in SEQ and a in ('len', 'at', 'unit', 'cat', 'sl', 'upd', 'ins', 'rem', 'rev', 'rep'):
            return {'at': 'at_', 'rep': 'rep_'}.get(a, a + '_')
    return RES.get(n, n)


def tr(e, bound):
    if z3.is_var(e):
        return bound[len(bound) - 1 - z3.get_var_index(e)]
    if z3.is_quantifier(e):
        names = [e.var_name(i) + "'" for i in range(e.num_vars())]
        bs = ' '.join(f'({n} : {SORT[e.var_sort(i).name()]})' for i, n in enumerate(names))
        return f"({'∀' if e.is_forall() else '∃'} {bs}, {tr(e.body(), bound + names)})"
    if z3.is_int_value(e):
        return f'({e.as_long()} : Int)'
    d, k = e.decl(), e.decl().kind()
    a = [tr(x, bound) for x in e.children()]
    isb = e.num_args() and e.arg(0).sort() == L.B
    op = {z3.Z3_OP_AND: ' ∧ ', z3.Z3_OP_OR: ' ∨ ', z3.Z3_OP_LE: ' ≤ ', z3.Z3_OP_LT: ' < ', z3.Z3_OP_GE: ' ≥ ',
          z3.Z3_OP_GT: ' > ', z3.Z3_OP_ADD: ' + ', z3.Z3_OP_SUB: ' - ', z3.Z3_OP_MUL: ' * ', z3.Z3_OP_IMPLIES: ' → ',
          z3.Z3_OP_EQ: ' ↔ ' if isb else ' = '}.get(k)
    if op and len(a) == 1:
        return a[0]
    if op:
        return '(' + op.join(a) + ')'
    if k == z3.Z3_OP_NOT:
        return f'(¬ {a[0]})'
    if k == z3.Z3_OP_UMINUS:
        return f'(- {a[0]})'
    if k == z3.Z3_OP_DISTINCT:
        assert len(a) == 2
        return f'(¬ ({a[0]} ↔ {a[1]}))' if isb else f'({a[0]} ≠ {a[1]})'
    if k == z3.Z3_OP_ITE:
        return f'(if {a[0]} then {a[1]} else {a[2]})'
    if k == z3.Z3_OP_TRUE:
        return 'True'
    if k == z3.Z3_OP_FALSE:
        return 'False'
    assert k == z3.Z3_OP_UNINTERPRETED, (e, k)
    if not a:
        n = d.name()
        return CONST.get(n, n)
    return '(' + lname(d.name()) + ' ' + ' '.join(a) + ')'


HEAD = '''/- GENERATED by tools/lean_gen.py from pyvc/logic.py: do not edit. -/
import Model
set_option linter.all false
open Classical
namespace SC.Ax
open SC

'''


def items():
    out = [(n, vs, body) for n, f, tg, sy, vs, body in L.AXIOMS]
    s = z3.Const('s', L.SVs)
    LLv, Ix, off, c = z3.Const('LL', L.SSVs), z3.Const('Ix', L.SIs), z3.Int('off'), z3.Int('c')
    # introduction rules and unfoldings the verifier uses outside the axiom list
    out.append(('sortedV_intro', [s], z3.Implies(L.sortedV_def(s), L.sortedV(s))))
    out.append(('LS_unfold', [Ix, c], L.LS_unfold(Ix, c)))
    out.append(('treeok_intro', [Ix, off, LLv],
                z3.Implies(z3.And(*[f for _, f in L.tree_components(Ix, off, LLv)]), L.treeok(Ix, off, LLv))))
    out += L.rewrites()
    return out


def main():
    its = items()
    names = [n for n, *_ in its]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    st = [HEAD]
    for n, vs, body in its:
        bs = ' '.join(f'({x.decl().name()} : {SORT[x.sort().name()]})' for x in vs)
        st.append(f"def a_{n} (V : Type) [Ctx V] : Prop := {'∀ ' + bs + ', ' if vs else ''}{tr(body, [])}")
    st.append('end SC.Ax\n')
    ck = ['/- GENERATED by tools/lean_gen.py: every axiom used by the verifier is proved. -/', 'import Proofs',
          'namespace SC', 'variable (V : Type) [Ctx V]',
          'structure All : Prop where']
    ck += [f'  {n} : Ax.a_{n} V' for n in names]
    ck += ['theorem all : All V where']
    ck += [f'  {n} := Pr.{n} V' for n in names]
    ck += ['end SC', '#print axioms SC.all', '']
    for f, t in (('Statements.lean', '\n'.join(st)), ('Check.lean', '\n'.join(ck))):
        p = os.path.join(HERE, 'lean', f)
        if '--check' in sys.argv:
            if open(p).read() != t:
                print(f'lean/{f} is not what pyvc/logic.py generates')
                return 1
        else:
            open(p, 'w').write(t)
    print(len(names), 'statements')
    return 0


if __name__ == '__main__':
    sys.exit(main())
