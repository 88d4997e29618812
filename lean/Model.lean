/- The concrete model in which every axiom of pyvc/logic.py is proved: Python
   lists are `List`, sets `Finset`, dict contents a domain and a lookup. -/
import Mathlib.Data.Finset.Basic
import Mathlib.Data.Finset.Card
import Mathlib.Data.Finset.SymmDiff
import Mathlib.Data.List.Nodup
import Mathlib.Data.List.Perm.Basic
import Mathlib.Data.Nat.Log
import Mathlib.Tactic
set_option linter.all false
open Classical
namespace SC

/-- Values: `ord` is the rank in the collection's order, `eqc` the equality
class.  Equal values have equal ranks (the coherence a user must provide); in a
plain list equality and rank coincide. -/
class Ctx (V : Type) extends Inhabited V where
  ord : V → Int
  eqc : V → Int
  coh : ∀ a b : V, eqc a = eqc b → ord a = ord b
  plain : Prop
  plain_eq : plain → ∀ a : V, eqc a = ord a

section generic
variable {α : Type} [Inhabited α]
noncomputable def len_ (s : List α) : Int := s.length
noncomputable def at_ (s : List α) (i : Int) : α := if 0 ≤ i then s.getD i.toNat default else default
def unit_ (x : α) : List α := [x]
def cat_ (s t : List α) : List α := s ++ t
def sl_ (s : List α) (a b : Int) : List α := (s.take b.toNat).drop a.toNat
def upd_ (s : List α) (i : Int) (x : α) : List α := s.set i.toNat x
def ins_ (s : List α) (i : Int) (x : α) : List α := s.take i.toNat ++ x :: s.drop i.toNat
def rem_ (s : List α) (i : Int) : List α := s.eraseIdx i.toNat
def rev_ (s : List α) : List α := s.reverse
def rep_ (s : List α) (n : Int) : List α := (List.replicate n.toNat s).flatten
end generic

/-- Binary search as `bisect` does it: `f` says "go right". -/
def bis (f : Nat → Prop) [DecidablePred f] (lo hi : Nat) : Nat :=
  if h : lo < hi then
    let mid := (lo + hi) / 2
    if f mid then bis f (mid + 1) hi else bis f lo mid
  else lo
termination_by hi - lo
decreasing_by all_goals omega

variable {V : Type} [Ctx V]
def ord (v : V) : Int := Ctx.ord v
def eqc (v : V) : Int := Ctx.eqc v
variable (V) in
def isplain : Prop := Ctx.plain V

def sortedV (s : List V) : Prop := ∀ i j : Int, 0 ≤ i → i ≤ j → j < len_ s → ord (at_ s i) ≤ ord (at_ s j)
def sortedI (s : List Int) : Prop := ∀ i j : Int, 0 ≤ i → i ≤ j → j < len_ s → at_ s i ≤ at_ s j
noncomputable def bl (s : List V) (k : Int) : Int := bis (fun m => ord (at_ s m) < k) 0 s.length
noncomputable def br (s : List V) (k : Int) : Int := bis (fun m => ¬ k < ord (at_ s m)) 0 s.length
noncomputable def blI (s : List Int) (k : Int) : Int := bis (fun m => at_ s m < k) 0 s.length
noncomputable def brI (s : List Int) (k : Int) : Int := bis (fun m => ¬ k < at_ s m) 0 s.length

/-- number of values in the first `n` buckets -/
def PN (LL : List (List V)) (n : Nat) : Nat := ((LL.take n).flatten).length
noncomputable def P (LL : List (List V)) (i : Int) : Int := PN LL i.toNat
def flat (LL : List (List V)) : List V := LL.flatten
def segN : List (List V) → Nat → Nat
  | [], _ => 0
  | l :: ls, k => if k < l.length then 0 else segN ls (k - l.length) + 1
def seg (LL : List (List V)) (k : Int) : Int := segN LL k.toNat
def isbase (_ : List (List V)) : Prop := True
def revall (LL : List (List V)) : List (List V) := LL.map List.reverse
def chunksN (m : Nat) : Nat → List V → List (List V)
  | 0, _ => []
  | f + 1, s => if s = [] then [] else s.take m :: chunksN m f (s.drop m)
noncomputable def chunks (s : List V) (m : Int) : List (List V) := chunksN m.toNat s.length s
def flatI (X : List (List Int)) : List Int := X.flatten
def mapord (s : List V) : List Int := s.map ord

/-- insertion after the last value not above `v` -/
def insR (v : V) : List V → List V
  | [] => [v]
  | x :: xs => if ord v < ord x then v :: x :: xs else x :: insR v xs
/-- stable sort -/
def ssort (s : List V) : List V := s.foldl (fun acc v => insR v acc) []
def nsort (s : List V) : List V := s

def fdiffN : List V → List V → Nat
  | x :: xs, y :: ys => if eqc x = eqc y then fdiffN xs ys + 1 else 0
  | _, _ => 0
def fdiff (s t : List V) : Int := fdiffN s t
noncomputable def firstN (v : V) : List V → Nat
  | [] => 0
  | x :: xs => if eqc x = eqc v then 0 else firstN v xs + 1
noncomputable def first_ (s : List V) (v : V) : Int := firstN v s
noncomputable def firstf (s : List V) (v : V) (a : Int) : Int := a + firstN v (s.drop a.toNat)
noncomputable def cnt (s : List V) (v : V) (i : Int) : Int := (s.take i.toNat).countP (fun x => decide (eqc x = eqc v))

def hlf (i : Int) : Int := i / 2
def pow2 (i : Int) : Prop := ∃ k : Nat, i = 2 ^ k
noncomputable def npow (i : Int) : Int := 2 ^ (Nat.log 2 i.toNat + 1)
noncomputable def ival (Ix : List Int) (j : Int) : Int := if 0 ≤ j ∧ j < len_ Ix then at_ Ix j else 0
noncomputable def treeok (Ix : List Int) (off : Int) (LL : List (List V)) : Prop :=
  (off ≥ 0 ∧ pow2 (off + 1) ∧ len_ LL ≥ 2 ∧ len_ LL ≤ off + 1 ∧ len_ Ix = off + len_ LL) ∧
  (∀ i : Int, 0 ≤ i → i < len_ LL → at_ Ix (off + i) = len_ (at_ LL i)) ∧
  (∀ k : Int, 0 ≤ k → k < off → at_ Ix k = ival Ix (2 * k + 1) + ival Ix (2 * k + 2))
noncomputable def LS (Ix : List Int) (c : Int) : Int :=
  if h : c ≤ 0 then 0
  else if 2 * hlf c = c then ival Ix (c - 1) + LS Ix (hlf (c - 1)) else LS Ix (hlf (c - 1))
termination_by c.toNat
decreasing_by all_goals (simp only [hlf]; omega)
def tn (_ : Int) : Prop := True

def mem (S : Finset V) (v : V) : Prop := v ∈ S
noncomputable def setof (s : List V) : Finset V := s.toFinset
noncomputable def hi (s : List V) (v : V) : Int := s.idxOf v
noncomputable def sunion (S T : Finset V) : Finset V := S ∪ T
noncomputable def sinter (S T : Finset V) : Finset V := S ∩ T
noncomputable def sdiff (S T : Finset V) : Finset V := S \ T
noncomputable def ssym (S T : Finset V) : Finset V := symmDiff S T
noncomputable def sadd (S : Finset V) (v : V) : Finset V := insert v S
noncomputable def sdel (S : Finset V) (v : V) : Finset V := S.erase v
def card (S : Finset V) : Int := S.card
noncomputable def seqof (S : Finset V) : List V := S.toList
def distinct (s : List V) : Prop := s.Nodup
noncomputable def occ (s : List V) (v : V) : Int := s.count v

structure Mp (V : Type) where
  d : Finset V
  f : V → V
def dom (D : Mp V) : Finset V := D.d
def val (D : Mp V) (v : V) : V := D.f v
def memp : Mp V := ⟨∅, fun _ => default⟩
noncomputable def mput (D : Mp V) (w x : V) : Mp V := ⟨insert w D.d, fun v => if v = w then x else D.f v⟩
noncomputable def mdel (D : Mp V) (w : V) : Mp V := ⟨D.d.erase w, D.f⟩
noncomputable def mmerge (D E : Mp V) : Mp V := ⟨D.d ∪ E.d, fun v => if v ∈ E.d then E.f v else D.f v⟩
noncomputable def mpairs (ks vs : List V) : Mp V := (ks.zip vs).foldl (fun D p => mput D p.1 p.2) memp
def mvals (D : Mp V) (ks : List V) : List V := ks.map D.f
noncomputable def mminus (D : Mp V) (S : Finset V) : Mp V := ⟨D.d \ S, D.f⟩
noncomputable def mrestr (D : Mp V) (S : Finset V) : Mp V := ⟨D.d ∩ S, D.f⟩
def konst (x : V) (n : Int) : List V := List.replicate n.toNat x
def subset (S T : Finset V) : Prop := S ⊆ T
noncomputable def sub_w (S T : Finset V) : V := if h : ∃ v, v ∈ S ∧ v ∉ T then h.choose else default
noncomputable def dwp (s : List V) : Int × Int :=
  if h : ∃ p : Int × Int, 0 ≤ p.1 ∧ p.1 < p.2 ∧ p.2 < len_ s ∧ at_ s p.1 = at_ s p.2 then h.choose else (0, 0)
noncomputable def cw (s : List V) (v : V) : Int :=
  if h : ∃ i : Int, 0 ≤ i ∧ i < len_ s ∧ eqc (at_ s i) = eqc v ∧ at_ s i ≠ v then h.choose else 0
noncomputable def dw1 (s : List V) : Int := (dwp s).1
noncomputable def dw2 (s : List V) : Int := (dwp s).2

def mulf (i st : Int) : Int := i * st
def rlen (a b st : Int) : Int :=
  if st > 0 then (if a < b then (b - a - 1) / st + 1 else 0)
  else if st < 0 then (if b < a then (a - b - 1) / (-st) + 1 else 0) else 0
def rmsN (F : List V) (a n st : Int) : Nat → List V
  | 0 => F
  | i + 1 => rem_ (rmsN F a n st i) (if st > 0 then a + (n - 1 - i) * st else a + i * st)
def rms (F : List V) (a n st i : Int) : List V := rmsN F a n st i.toNat
noncomputable def selseq (F : List V) (a n st : Int) : List V := (List.range n.toNat).map (fun (i : Nat) => at_ F (a + (i : Int) * st))

/-- all of the above is about total functions on lists: nothing here mentions Python -/
theorem model_ok : True := trivial
end SC
