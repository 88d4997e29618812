import Proofs5
set_option linter.all false
open Classical
namespace SC.Pr
variable (V : Type) [Ctx V]

/-! ### the positional index tree -/
/-- sum of the first `q` stored values of the level starting at node `b` -/
noncomputable def A (Ix : List Int) (b : Int) : Nat → Int
  | 0 => 0
  | q + 1 => A Ix b q + ival Ix (b + q)

theorem LS_unfold : Ax.a_LS_unfold V := by
  intro Ix c
  rw [LS.eq_def]
  by_cases h : c ≤ 0
  · rw [dif_pos h, if_pos h]
  · rw [dif_neg h, if_neg h]
    rfl

theorem A_level (Ix : List Int) (b : Int) (q : Nat)
    (h : ∀ t : Nat, t < q → ival Ix (b + t) = ival Ix (2 * b + 1 + 2 * t) + ival Ix (2 * b + 1 + (2 * t + 1))) :
    A Ix b q = A Ix (2 * b + 1) (2 * q) := by
  induction q with
  | zero => rfl
  | succ q ih =>
    have := h q (by omega)
    rw [show 2 * (q + 1) = (2 * q + 1) + 1 by ring]
    simp only [A]
    rw [ih (fun t ht => h t (by omega)), this]
    push_cast
    ring

theorem LS_level (Ix : List Int) (off : Int) (m : Nat) (hoff : off + 1 = 2 ^ m)
    (hn : ∀ k : Int, 0 ≤ k → k < off → ival Ix k = ival Ix (2 * k + 1) + ival Ix (2 * k + 2)) :
    ∀ d : Nat, d ≤ m → ∀ q : Nat, q < 2 ^ d → LS Ix (2 ^ d - 1 + q) = A Ix (2 ^ d - 1) q := by
  intro d
  induction d with
  | zero =>
    intro _ q hq
    have : q = 0 := by simpa using hq
    subst this
    rw [LS.eq_def, dif_pos (by norm_num)]
    simp [A]
  | succ d ih =>
    intro hd q hq
    have hp : (1 : Int) ≤ 2 ^ d := one_le_pow₀ (by norm_num)
    have hle : (2 : Int) ^ (d + 1) ≤ 2 ^ m := pow_le_pow_right₀ (by norm_num) hd
    have hs : (2 : Int) ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have hsn : 2 ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have hlev := fun r (hr : r ≤ 2 ^ d) => A_level Ix (2 ^ d - 1) r (fun t ht => by
      have htt : (t : Int) < 2 ^ d := by exact_mod_cast (show t < 2 ^ d by omega)
      have := hn (2 ^ d - 1 + t) (by omega) (by omega)
      rw [this]; congr 2 <;> ring)
    have e0 : (2 : Int) * (2 ^ d - 1) + 1 = 2 ^ (d + 1) - 1 := by rw [hs]; ring
    rw [e0] at hlev
    rw [LS.eq_def, dif_neg (by omega)]
    obtain ⟨r, hr | hr⟩ : ∃ r : Nat, q = 2 * r ∨ q = 2 * r + 1 := ⟨q / 2, by omega⟩
    · subst hr
      have hr2 : r < 2 ^ d := by omega
      by_cases hc : 2 * SC.hlf (2 ^ (d + 1) - 1 + ((2 * r : Nat) : Int)) = 2 ^ (d + 1) - 1 + ((2 * r : Nat) : Int)
      · exfalso; simp only [SC.hlf] at hc; push_cast at hc; omega
      · rw [if_neg hc]
        have e : SC.hlf (2 ^ (d + 1) - 1 + ((2 * r : Nat) : Int) - 1) = 2 ^ d - 1 + (r : Int) := by
          simp only [SC.hlf]; push_cast; omega
        rw [e, ih (by omega) r hr2, hlev r (by omega)]
    · subst hr
      have hr2 : r < 2 ^ d := by omega
      by_cases hc : 2 * SC.hlf (2 ^ (d + 1) - 1 + ((2 * r + 1 : Nat) : Int)) = 2 ^ (d + 1) - 1 + ((2 * r + 1 : Nat) : Int)
      · rw [if_pos hc]
        have e : SC.hlf (2 ^ (d + 1) - 1 + ((2 * r + 1 : Nat) : Int) - 1) = 2 ^ d - 1 + (r : Int) := by
          simp only [SC.hlf]; push_cast; omega
        rw [e, ih (by omega) r hr2, hlev r (by omega)]
        simp only [A]
        have e2 : (2 : Int) ^ (d + 1) - 1 + ((2 * r + 1 : Nat) : Int) - 1 = 2 ^ (d + 1) - 1 + ((2 * r : Nat) : Int) := by
          push_cast; ring
        rw [e2]; ring
      · exfalso; simp only [SC.hlf] at hc; push_cast at hc; omega

theorem A_root (Ix : List Int) (off : Int) (m : Nat) (hoff : off + 1 = 2 ^ m)
    (hn : ∀ k : Int, 0 ≤ k → k < off → ival Ix k = ival Ix (2 * k + 1) + ival Ix (2 * k + 2)) :
    ∀ d : Nat, d ≤ m → A Ix 0 1 = A Ix (2 ^ d - 1) (2 ^ d) := by
  intro d
  induction d with
  | zero => intro _; simp
  | succ d ih =>
    intro hd
    have hp : (1 : Int) ≤ 2 ^ d := one_le_pow₀ (by norm_num)
    have hle : (2 : Int) ^ (d + 1) ≤ 2 ^ m := pow_le_pow_right₀ (by norm_num) hd
    have hs : (2 : Int) ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have hsn : 2 ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have hlev := A_level Ix (2 ^ d - 1) (2 ^ d) (fun t ht => by
      have htt : (t : Int) < 2 ^ d := by exact_mod_cast ht
      have := hn (2 ^ d - 1 + t) (by omega) (by omega)
      rw [this]; congr 2 <;> ring)
    have e0 : (2 : Int) * (2 ^ d - 1) + 1 = 2 ^ (d + 1) - 1 := by rw [hs]; ring
    rw [e0] at hlev
    rw [ih (by omega), hlev, hsn]

variable {V}
theorem tree_ival {Ix : List Int} {off : Int} {LL : List (List V)} (h : treeok Ix off LL) :
    (∀ k : Int, 0 ≤ k → k < off → ival Ix k = ival Ix (2 * k + 1) + ival Ix (2 * k + 2)) ∧
    (∀ q : Nat, q < LL.length → ival Ix (off + q) = len_ (at_ LL q)) ∧
    (∀ q : Nat, LL.length ≤ q → ival Ix (off + q) = 0) := by
  obtain ⟨⟨h0, h1, h2, h3, h4⟩, hl, hn⟩ := h
  simp only [len_] at h2 h3 h4
  refine ⟨fun k a b => ?_, fun q hq => ?_, fun q hq => ?_⟩
  · rw [← hn k a b, ival, if_pos ⟨a, by simp only [len_]; omega⟩]
  · rw [← hl q (by omega) (by simp only [len_]; omega), ival, if_pos ⟨by omega, by simp only [len_]; omega⟩]
  · rw [ival, if_neg]; simp only [len_]; omega
theorem A_P {Ix : List Int} {off : Int} {LL : List (List V)} (h : treeok Ix off LL) (q : Nat) :
    A Ix off q = P LL (q : Int) := by
  have ht := tree_ival h
  induction q with
  | zero => simp [A, P, PN]
  | succ q ih =>
    simp only [A, ih]
    by_cases hq : q < LL.length
    · rw [ht.2.1 q hq]
      have := P_next V LL q ⟨by omega, by simp only [len_]; omega⟩
      push_cast
      rw [← this]
    · rw [ht.2.2 q (by omega)]
      simp only [P, Int.toNat_natCast]
      rw [PN_all LL q (by omega), PN_all LL (q + 1) (by omega)]; simp
variable (V)
theorem LS_leaf : Ax.a_LS_leaf V := by
  intro Ix off LL j h
  obtain ⟨ht, h1, h2⟩ := h
  obtain ⟨q, hq⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ j - off by omega)
  have hj : j = off + q := by omega
  obtain ⟨⟨h0, ⟨m, hm⟩, h3, h4, h5⟩, _⟩ := id ht
  have hqn : (q : Int) < 2 ^ m := by omega
  have := LS_level Ix off m hm (tree_ival ht).1 m (le_refl _) q (by exact_mod_cast hqn)
  have e : (2 : Int) ^ m - 1 = off := by omega
  rw [e] at this
  rw [hj, this, A_P ht, show off + (q : Int) - off = q by ring]
theorem tree_root : Ax.a_tree_root V := by
  intro Ix off LL ht
  obtain ⟨⟨h0, ⟨m, hm⟩, h3, h4, h5⟩, _⟩ := id ht
  constructor
  · have e : (2 : Int) ^ m - 1 = off := by omega
    have := A_root Ix off m hm (tree_ival ht).1 m (le_refl _)
    rw [e, A_P ht] at this
    have e1 : A Ix 0 1 = at_ Ix 0 := by
      simp only [A]
      rw [ival, if_pos]
      · simp
      · have h9 : len_ Ix ≥ 2 := by omega
        refine ⟨by norm_num, ?_⟩
        norm_num
        omega
    rw [← e1, this]
    have h6 : len_ LL = (LL.length : Int) := rfl
    simp only [P, Int.toNat_natCast, h6]
    have hl : LL.length ≤ 2 ^ m := by
      have : (LL.length : Int) ≤ 2 ^ m := by omega
      exact_mod_cast this
    rw [PN_all LL _ hl, PN_all LL _ (le_refl _)]
  · rw [LS.eq_def, dif_pos (by omega)]
theorem treeok_shape : Ax.a_treeok_shape V := fun Ix off LL h => h.1
theorem treeok_leaf : Ax.a_treeok_leaf V := fun Ix off LL i h => h.1.2.1 i h.2.1 h.2.2
theorem treeok_node : Ax.a_treeok_node V := by
  intro Ix off LL k h
  exact h.1.2.2 k h.2.1 h.2.2
theorem treeok_intro : Ax.a_treeok_intro V := by
  intro Ix off LL h
  refine ⟨h.1, fun i h0 h1 => ?_, fun k h0 h1 => ?_⟩
  · have := h.2.1 i ⟨h0, h1⟩
    simpa using this
  · have := h.2.2 k ⟨h0, h1⟩
    simp only [ival]
    simpa using this
theorem sortedV_intro : Ax.a_sortedV_intro V := by
  intro s h i j h0 h1 h2
  by_cases e : i = j
  · subst e; exact le_refl _
  · exact h i j ⟨h0, by omega, h2⟩
end SC.Pr
