"""Loop invariants.

Candidates are generated from the *types* of the variables a loop changes, not
from their names, and kept only if proved to hold initially and to be
preserved (Houdini); what is kept is an inductive invariant.
"""
import itertools
import z3
from z3 import And, Or, Not, Implies, If, IntVal, ForAll
import logic as L
from logic import SV, SI, SSV, SSI
from engine import Cand, CandError, IntV, KeyV, ElemV, InstObj, ListObj, Poison, SetObj, DictObj, ListRef, ObjRef, SetRef
from rep import Rep


def same_item(q, i):
    """Names item i of a list of values (true for every i)."""
    if q.decl().eq(L.mvals):
        D, F = q.children()
        return Implies(And(0 <= i, i < SV.len(F)), SV.at(q, i) == L.val(D, SV.at(F, i)))
    return z3.BoolVal(True)


class Templates:
    def __init__(self, eng):
        self.eng = eng

    # ------------------------------------------------------------ helpers
    def objs(self, eng, folded):
        return [oid for oid, o in sorted(eng.heap.items(), key=lambda kv: kv[0])
                if isinstance(o, InstObj) and eng.is_sl(o) and o.folded == folded and (folded or '_lists' in o.attrs)]

    def rep(self, ctx, oid):
        ob = ctx.eng.heap[oid]
        if ob.folded:
            raise CandError()
        try:
            return Rep(ctx.eng, ob)
        except Exception:
            raise CandError()

    def folded_now(self, ctx):
        """objects whose content the loop changes as a whole"""
        return sorted(ctx.info.folds)

    def ints_mod(self, ctx):
        return [nm for nm in ctx.ints(True) if nm != ctx.targets and not nm.startswith('@')]

    def elems(self, ctx):
        return [nm for nm, v in ctx.fr.env.items() if isinstance(v, ElemV) and nm not in ctx.names]

    def ix_of(self, ctx, oid):
        return self.rep(ctx, oid).IX

    # --------------------------------------------------------- candidates
    def loop_candidates(self, ctx):
        eng = ctx.eng
        out = []
        mods = self.ints_mod(ctx)
        unfolded = [o for o in self.objs(eng, False) if o not in ctx.info.folds]
        for oid in unfolded:
            ob = eng.heap[oid]
            try:
                r = self.rep(ctx, oid)
            except CandError:
                continue
            ixid = ob.attrs['_index'].id
            ix_modified = ixid in ctx.info.mods
            off0 = r.off
            reads_ix = ixid in ctx.info.touched
            reads_buckets = any(ob.attrs[a].id in ctx.info.touched for a in ('_lists', '_keys') if a in ob.attrs)
            if ctx.src is None and reads_ix:
                for c in mods:
                    out.append(Cand(f'{c} is a tree position', lambda x, c=c, oid=oid: And(0 <= x.t(c), x.t(c) < SI.len(self.ix_of(x, oid)))))
            if ix_modified:
                out.append(Cand('the positional index is valid', lambda x, oid=oid: self.rep(x, oid).index_fact()))
            if ix_modified and reads_ix and ctx.src is None:
                out.append(Cand('index length', lambda x, oid=oid, n0=SI.LEN(r.IX): SI.LEN(self.ix_of(x, oid)) == n0))
                for c, d in itertools.product(mods, (1, -1)):
                    def fn(x, c=c, d=d, oid=oid):
                        rr = self.rep(x, oid)
                        return And(*[f for _, f in L.tree_components(rr.IX, rr.off, rr.LL, x.t(c), IntVal(d))])
                    out.append(Cand(f'tree up to {d:+d} at {c}', fn))
            if not ix_modified and ctx.src is None and reads_ix:
                for a, b in itertools.permutations(mods, 2):
                    def fn(x, a=a, b=b, oid=oid):
                        IX = self.ix_of(x, oid)
                        return x.t(a) + L.LS(IX, x.t(b)) == x.pre(a) + L.LS(IX, x.pre(b))
                    out.append(Cand(f'{a} + left siblings of {b} is constant', fn, needs=[f'{b} is a tree position']))
                    out.append(Cand(f'{a} == 2*{b}+1', lambda x, a=a, b=b: x.t(a) == 2 * x.t(b) + 1, needs=[f'{b} is a tree position']))
                    out.append(Cand(f'0 <= {a} < tree[{b}]', lambda x, a=a, b=b, oid=oid: And(0 <= x.t(a), x.t(a) < L.ival(self.ix_of(x, oid), x.t(b))), needs=[f'{b} is a tree position']))
            if r.keyed and ctx.src is None and reads_buckets:
                out += self.scan(ctx, oid, mods)
        out += self.linear(ctx, mods)
        # rows of a sum tree
        for hid in sorted([h for h in ctx.info.mods if isinstance(h, int)]):
            o = eng.heap.get(hid)
            if isinstance(o, ListObj) and o.elem == 'LI' and len(unfolded) >= 1:
                out += self.rows(ctx, hid, unfolded[0])
        if ctx.src is not None:
            out += self.for_cands(ctx)
        return out

    def lines(self, ctx):
        """(sequence, map or None) of the objects at hand whose content is known:
        their sequence, and for views of a dict the values in that order."""
        eng = ctx.eng
        out = []

        def put(q, D=None):
            if not any(q.eq(q2) and (D is None) == (D2 is None) for q2, D2 in out):
                out.append((q, D))
        for v in list(ctx.fr.env.values()):
            if not isinstance(v, ObjRef) or not isinstance(eng.heap.get(v.id), InstObj):
                continue
            o = eng.heap[v.id]
            m = o.attrs.get('_mapping')
            if isinstance(m, ObjRef):
                o = eng.heap[m.id]
            q = o
            if isinstance(o.attrs.get('_list'), ObjRef):
                q = eng.heap[o.attrs['_list'].id]
            if not eng.is_sl(q) or not q.folded or q.F is None:
                continue
            put(q.F)
            if o.map is not None:
                put(L.mvals(o.map, q.F))
                put(q.F, o.map)
        return out

    def linear(self, ctx, mods):
        """Looking at one position after the other."""
        out = []
        if ctx.src is not None:
            src = ctx.src
            parts = [s for e, s in getattr(src, 'parts', []) if e == 'V' and s is not None]
            qs = [(src.seq, None)] if src.elem == 'V' and src.seq is not None else []
            its = [ctx.targets]
            qs += [(q, D) for q, D in self.lines(ctx) if not any(D is None and q.eq(q2) for q2, _ in qs)]
        else:
            qs, its = self.lines(ctx), mods
        for v, val in [(nm, x) for nm, x in ctx.fr.env.items() if nm not in ctx.names]:
            for q, D in qs:
                for i in its:
                    where = lambda x, i=i: x.fr.env[i].t
                    if isinstance(val, ElemV) and D is None:
                        out.append(Cand(f'no {v} in the first items', lambda x, q=q, t=val.t, w=where: And(0 <= w(x), w(x) <= L.firstf(q, t, 0), same_item(q, w(x)))))
                    elif D is not None and hasattr(val, 'items') and len(val.items) == 2 and all(isinstance(y, ElemV) for y in val.items):
                        k, w0 = [y.t for y in val.items]
                        out.append(Cand(f'no {v} in the first items', lambda x, q=q, D=D, k=k, w0=w0, w=where:
                                        And(0 <= w(x), w(x) <= SV.len(q), Or(w(x) <= L.firstf(q, k, 0), L.eqc(L.val(D, k)) != L.eqc(w0)))))
        if ctx.src is None:
            for q, D in qs:
                for i in its:
                    if D is None:
                        out.append(Cand(f'{i} within the sequence', lambda x, i=i, q=q: And(0 <= x.t(i), x.t(i) <= SV.len(q))))
        return out

    def scan(self, ctx, oid, mods):
        """Walking forward through (bucket, offset) positions."""
        out = []
        for p in mods:
            out.append(Cand(f'{p} is a bucket', lambda x, p=p: And(0 <= x.t(p), x.t(p) < SSV.LEN(self.rep(x, oid).LL))))
            for i in mods:
                if i == p:
                    continue
                out.append(Cand(f'{i} == len(bucket {p})', lambda x, p=p, i=i: x.t(i) == SV.len(SSV.AT(self.rep(x, oid).LL, x.t(p))), needs=[f'{p} is a bucket']))
                out.append(Cand(f'{i} is in bucket {p}', lambda x, p=p, i=i: And(0 <= x.t(i), x.t(i) < SV.len(SSV.AT(self.rep(x, oid).LL, x.t(p)))), needs=[f'{p} is a bucket']))
                pos = [f'{p} is a bucket', f'{i} is in bucket {p}']

                def here(x, p=p, i=i):
                    r = self.rep(x, oid)
                    return L.flat(r.LL), L.P(r.LL, x.t(p)) + x.t(i)
                for v in self.elems(ctx):
                    def lo(x, here=here, v=v):
                        F, h = here(x)
                        return And(L.bl(F, L.ord_(x.t(v))) <= h, h <= SV.len(F))
                    out.append(Cand(f'position of {p},{i} at or after the first candidate of {v}', lo, needs=pos))

                    def nofirst(x, here=here, v=v):
                        F, h = here(x)
                        return L.firstf(F, x.t(v), 0) >= h
                    out.append(Cand(f'no {v} before {p},{i}', nofirst, needs=pos))
                    for s in [n for n in ctx.ints(False) if not n.startswith('@')]:
                        def nofrom(x, here=here, v=v, s=s):
                            F, h = here(x)
                            return L.firstf(F, x.t(v), x.t(s)) >= h
                        out.append(Cand(f'no {v} between {s} and {p},{i}', nofrom, needs=pos))
                    for tt in mods:
                        if tt in (p, i):
                            continue

                        def tot(x, here=here, v=v, tt=tt):
                            F, h = here(x)
                            return x.t(tt) == L.cnt(F, x.t(v), h)
                        out.append(Cand(f'{tt} counts {v} before {p},{i}', tot, needs=pos))
        return out

    def rows(self, ctx, hid, oid):
        """List of rows of a sum tree, built bottom up."""
        eng = ctx.eng
        G = lambda x: L.flatI(SSI.rev(x.eng.heap[hid].seq))
        W = lambda x: SI.LEN(SSI.AT(x.eng.heap[hid].seq, SSI.LEN(x.eng.heap[hid].seq) - 1))
        n = lambda x: SSV.LEN(self.rep(x, oid).LL)
        base = lambda x: SI.len(G(x)) - n(x)
        b0 = z3.simplify(SI.len(L.flatI(SSI.rev(eng.heap[hid].seq))) - SSV.LEN(self.rep(ctx, oid).LL))
        s0 = ctx.pre_heap[hid].seq
        w0 = SI.LEN(SSI.AT(s0, SSI.LEN(s0) - 1))
        j = z3.Int('rj')
        out = [
            Cand('rows: at least one', lambda x: SSI.len(x.eng.heap[hid].seq) >= 1),
            Cand('rows: width is a power of two', lambda x: L.pow2(W(x))),
            Cand('rows: base', lambda x: And(base(x) >= 0, base(x) + W(x) == b0 + w0, W(x) <= base(x))),
            Cand('rows: sums', lambda x: ForAll([j], Implies(And(0 <= j, j < base(x)),
                 SI.at(G(x), j) == L.ival(G(x), 2 * j + W(x)) + L.ival(G(x), 2 * j + W(x) + 1)), patterns=[L.tn(j), SI.at(G(x), j)])),
            Cand('rows: leaves', lambda x: ForAll([j], Implies(And(0 <= j, j < n(x)),
                 SI.at(G(x), base(x) + j) == SV.len(SSV.at(self.rep(x, oid).LL, j))), patterns=[SSV.at(self.rep(x, oid).LL, j)])),
        ]
        return out

    def for_cands(self, ctx):
        eng = ctx.eng
        out = []
        src = ctx.src
        it = lambda x: x.fr.env[x.targets].t
        # content of lists changed as a whole
        for oid in self.folded_now(ctx):
            o = ctx.pre_heap[oid]
            if not o.folded:
                continue
            F0 = o.F
            Fn = lambda x, oid=oid: x.eng.heap[oid].F
            if src.elem == 'V' and src.seq is not None:
                q = src.seq
                out.append(Cand('content == stable sort of old content + items so far',
                                lambda x, Fn=Fn: Fn(x) == L.ssort(SV.cat(F0, SV.sl(q, 0, it(x))))))
            rng, rv = src.range, False
            if rng is None and getattr(src, 'revrange', None) is not None:
                rng, rv = src.revrange, True
            if rng is not None:
                a, b, st = rng
                cst = z3.simplify(st)
                n = src.length
                if rv or (z3.is_int_value(cst) and cst.as_long() < 0) or not z3.is_int_value(cst):
                    out.append(Cand('length drops by one per item', lambda x, Fn=Fn: SV.len(Fn(x)) == SV.len(F0) - it(x)))
                if z3.is_int_value(cst) and cst.as_long() == 1 and rv:
                    out.append(Cand('a suffix of the range is gone', lambda x, Fn=Fn: Fn(x) == SV.cat(SV.sl(F0, 0, b - it(x)), SV.sl(F0, b, SV.len(F0)))))
                elif z3.is_int_value(cst) and cst.as_long() == -1 and not rv:
                    out.append(Cand('a part of the range is gone', lambda x, Fn=Fn: Fn(x) == SV.cat(SV.sl(F0, 0, a + 1 - it(x)), SV.sl(F0, a + 1, SV.len(F0)))))
                else:
                    out.append(Cand('positions removed one by one', lambda x, Fn=Fn: Fn(x) == L.rms(F0, a, n, st, it(x))))
        if src.elem == 'V' and src.seq is not None and not ctx.info.mods and not ctx.info.folds:
            # members among the items seen
            for v in list(ctx.fr.env.values()):
                S = None
                if isinstance(v, ObjRef) and isinstance(eng.heap.get(v.id), InstObj):
                    o = eng.heap[v.id]
                    S = L.DOM(o.map) if o.map is not None else None
                    if isinstance(o.attrs.get('_set'), SetRef):
                        S = eng.heap[o.attrs['_set'].id].s
                elif isinstance(v, SetRef):
                    S = eng.heap[v.id].s
                if S is None:
                    continue
                seen = lambda x, q=src.seq: L.setof(SV.sl(q, 0, it(x)))
                out.append(Cand('no item is a member', lambda x, S=S, seen=seen: L.subset(L.sinter(S, seen(x)), L.semp)))
                out.append(Cand('all items are members', lambda x, S=S, seen=seen: L.subset(seen(x), S)))
        parts = [s for e, s in getattr(src, 'parts', []) if e == 'V' and s is not None]
        if len(parts) == 2:
            out.append(Cand('no difference so far', lambda x: it(x) <= L.fdiff(parts[0], parts[1])))
        out += self.set_cands(ctx)
        return out

    def set_cands(self, ctx):
        """Sets, maps and the sorted lists that mirror them."""
        eng = ctx.eng
        out = []
        src = ctx.src
        it = lambda x: x.fr.env[x.targets].t
        parts = [s for e, s in getattr(src, 'parts', []) if e == 'V' and s is not None]
        q = src.seq if src.elem == 'V' else (parts[0] if parts else None)
        done = (lambda x: L.setof(SV.sl(q, 0, it(x)))) if q is not None else None
        sets = [h for h in ctx.info.mods if isinstance(h, int) and isinstance(eng.heap.get(h), SetObj)]
        maps = [h for h in ctx.info.mods if isinstance(h, int) and isinstance(eng.heap.get(h), DictObj)]
        maps += [h[0] for h in ctx.info.mods if isinstance(h, tuple) and h[1] == '@map']
        content = lambda o: o.m if isinstance(o, DictObj) else o.map
        if done is not None:
            for h in sets:
                s0 = ctx.pre_heap[h].s
                out.append(Cand('members so far: added', lambda x, h=h, s0=s0: x.eng.heap[h].s == L.sunion(s0, done(x))))
                out.append(Cand('members so far: removed', lambda x, h=h, s0=s0: x.eng.heap[h].s == L.sdiff(s0, done(x))))
                out.append(Cand('members so far: toggled', lambda x, h=h, s0=s0: x.eng.heap[h].s == L.ssym(s0, done(x))))
            for h in maps:
                d0 = content(ctx.pre_heap[h])
                now = lambda x, h=h: content(x.eng.heap[h])
                out.append(Cand('items so far: removed', lambda x, now=now, d0=d0: now(x) == L.mminus(d0, done(x))))
                if len(parts) == 2:
                    out.append(Cand('items so far: stored', lambda x, now=now, d0=d0: now(x) == L.mmerge(d0, L.mpairs(SV.sl(parts[0], 0, it(x)), SV.sl(parts[1], 0, it(x))))))
                for h2, o2 in sorted(ctx.pre_heap.items()):
                    m2 = content(o2) if isinstance(o2, (DictObj, InstObj)) else None
                    if m2 is None or h2 in maps:
                        continue
                    out.append(Cand(f'items so far: taken from {h2}', lambda x, now=now, d0=d0, m2=m2: now(x) == L.mmerge(d0, L.mrestr(m2, done(x)))))
            for oid in sorted(ctx.info.folds):
                o = ctx.pre_heap[oid]
                if o.folded and o.F is not None and not o.meta.get('foreign'):
                    s0 = L.setof(o.F)
                    Fn = lambda x, oid=oid: L.setof(x.eng.heap[oid].F)
                    out.append(Cand('listed so far: added', lambda x, Fn=Fn, s0=s0: Fn(x) == L.sunion(s0, done(x))))
                    out.append(Cand('listed so far: removed', lambda x, Fn=Fn, s0=s0: Fn(x) == L.sdiff(s0, done(x))))
        for oid, o in sorted(ctx.pre_heap.items()):
            if not isinstance(o, InstObj) or '_list' not in o.attrs or not isinstance(o.attrs['_list'], ObjRef):
                continue
            lid = o.attrs['_list'].id
            if lid not in ctx.info.folds:
                continue
            F = lambda x, lid=lid: x.eng.heap[lid].F
            out.append(Cand('the sorted list has no duplicates', lambda x, F=F: L.distinct(F(x))))
            if o.map is not None:
                out.append(Cand('the sorted list holds the keys', lambda x, F=F, oid=oid: L.setof(F(x)) == L.dom(x.eng.heap[oid].map)))
            elif '_set' in o.attrs:
                sid = o.attrs['_set'].id
                out.append(Cand('the sorted list holds the members', lambda x, F=F, sid=sid: L.setof(F(x)) == x.eng.heap[sid].s))
        return out

    # ----------------------------------------------------------- measures
    def loop_measures(self, ctx):
        eng = ctx.eng
        out = []
        mods = self.ints_mod(ctx)
        for oid in self.objs(eng, False):
            for c in mods:
                out.append(Cand(f'len(index) - {c}', lambda x, c=c, oid=oid: SI.len(self.ix_of(x, oid)) - x.t(c)))
            ob = eng.heap[oid]
            if eng.is_keyed(ob):
                for p, i in itertools.permutations(mods, 2):
                    def m(x, p=p, i=i, oid=oid):
                        r = self.rep(x, oid)
                        return SV.len(L.flat(r.LL)) - L.P(r.LL, x.t(p)) - x.t(i)
                    out.append(Cand(f'positions after {p},{i}', m))
        for hid in sorted([h for h in ctx.info.mods if isinstance(h, int)]):
            o = eng.heap.get(hid)
            if isinstance(o, ListObj) and o.elem == 'LI':
                out.append(Cand('width of the last row', lambda x, hid=hid: SI.LEN(SSI.AT(x.eng.heap[hid].seq, SSI.LEN(x.eng.heap[hid].seq) - 1))))
        if ctx.src is None:
            for q, D in self.lines(ctx):
                for c in mods:
                    out.append(Cand(f'items after {c}', lambda x, c=c, q=q: SV.len(q) - x.t(c)))
        for c in mods:
            out.append(Cand(f'{c}', lambda x, c=c: x.t(c)))
            for u in [n for n in ctx.ints(False) if not n.startswith('@')]:
                out.append(Cand(f'{u} - {c}', lambda x, c=c, u=u: x.t(u) - x.t(c)))
        return out

    # -------------------------------------------------------------- hints
    def loop_hints(self, ctx):
        eng = ctx.eng
        out = []
        if ctx.src is not None:
            return out
        mods = self.ints_mod(ctx)
        for oid in self.objs(eng, False):
            try:
                IX = self.ix_of(ctx, oid)
            except CandError:
                continue
            for c in mods:
                try:
                    t = ctx.t(c)
                except CandError:
                    continue
                out += [L.LS_unfold(IX, t), L.LS_unfold(IX, 2 * t + 1), L.LS_unfold(IX, 2 * t + 2), L.tn(t)]
        return out
