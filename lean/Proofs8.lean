import Proofs7
set_option linter.all false
open Classical
namespace SC.Pr
variable (V : Type) [Ctx V]

/-! ### strided ranges -/
theorem mulf_zero : Ax.a_mulf_zero V := by intro st; simp [mulf]

theorem rlen_pos_eq {a b st : Int} (h : st > 0) : rlen a b st = if a < b then (b - a - 1) / st + 1 else 0 := by
  simp [rlen, h]
theorem rlen_neg_eq {a b st : Int} (h : st < 0) : rlen a b st = if b < a then (a - b - 1) / (-st) + 1 else 0 := by
  have : ¬ st > 0 := by omega
  simp [rlen, h, this]

theorem rlen_pos : Ax.a_rlen_pos V := by
  intro a b st h
  rw [rlen_pos_eq h]
  by_cases h2 : a < b
  · have := Int.ediv_nonneg (show 0 ≤ b - a - 1 by omega) (le_of_lt h)
    simp only [if_pos h2]; constructor
    · omega
    · constructor <;> intro <;> omega
  · simp [h2]
theorem rlen_neg : Ax.a_rlen_neg V := by
  intro a b st h
  rw [rlen_neg_eq h]
  by_cases h2 : b < a
  · have := Int.ediv_nonneg (show 0 ≤ a - b - 1 by omega) (show 0 ≤ -st by omega)
    simp only [if_pos h2]; constructor
    · omega
    · constructor <;> intro <;> omega
  · simp [h2]

theorem stride_bound {d st i : Int} (hst : st > 0) (h0 : i ≥ 0) (hi : i < d / st + 1) :
    i ≤ i * st ∧ i * st + (d / st - i) ≤ d := by
  have h1 : d / st * st ≤ d := Int.ediv_mul_le d (by omega)
  constructor
  · nlinarith
  · nlinarith [mul_le_mul_of_nonneg_left (show (1 : Int) ≤ st by omega) (show 0 ≤ d / st - i by omega)]

theorem rlen_in : Ax.a_rlen_in V := by
  intro a b st i ⟨h0, h1, h2⟩
  rw [rlen_pos_eq h2] at *
  by_cases h3 : a < b
  · simp only [if_pos h3] at *
    have := stride_bound h2 h0 h1
    simp only [mulf]; omega
  · simp only [if_neg h3] at h1; omega
theorem rlen_in_neg : Ax.a_rlen_in_neg V := by
  intro a b st i ⟨h0, h1, h2⟩
  rw [rlen_neg_eq h2] at *
  by_cases h3 : b < a
  · simp only [if_pos h3] at *
    have := stride_bound (show -st > 0 by omega) h0 h1
    have e : i * -st = -(i * st) := by ring
    rw [e] at this
    simp only [mulf]; omega
  · simp only [if_neg h3] at h1; omega

/-- the i-th position removed -/
def pos (a n st : Int) (i : Nat) : Int := if st > 0 then a + (n - 1 - i) * st else a + i * st

theorem rms_zero : Ax.a_rms_zero V := by intro F a n st; simp [rms, rmsN]
theorem rms_step : Ax.a_rms_step V := by
  intro F a n st i j ⟨h0, h1, h2⟩
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have e : j.toNat = k + 1 := by omega
  simp [rms, e, rmsN, mulf]

def okr (F : List V) (a b st : Int) : Prop :=
  st ≠ 0 ∧ (st > 0 → a ≥ 0 ∧ b ≤ len_ F) ∧ (st < 0 → a < len_ F ∧ b ≥ -1)

theorem pos_ok {F : List V} {a b st : Int} (h : okr V F a b st) (i : Nat) (hi : (i : Int) < rlen a b st) :
    0 ≤ pos a (rlen a b st) st i ∧ pos a (rlen a b st) st i < len_ F - i := by
  obtain ⟨h1, h2, h3⟩ := h
  rcases lt_or_gt_of_ne h1 with hs | hs
  · have := rlen_in_neg V a b st i ⟨by omega, hi, hs⟩
    have := h3 hs
    simp only [pos, if_neg (show ¬ st > 0 by omega)]
    simp only [mulf] at *; omega
  · have := rlen_in V a b st (rlen a b st - 1 - i) ⟨by omega, by omega, hs⟩
    have := h2 hs
    simp only [pos, if_pos hs]
    simp only [mulf] at *; omega

theorem pos_dec {a n st : Int} (h : st ≠ 0) (i : Nat) : pos a n st (i + 1) < pos a n st i := by
  simp only [pos]; split
  · push_cast; nlinarith
  · have : st < 0 := by omega
    push_cast; nlinarith

theorem rmsN_succ (F : List V) (a n st : Int) (i : Nat) :
    rmsN F a n st (i + 1) = rem_ (rmsN F a n st i) (pos a n st i) := rfl

theorem rmsN_len {F : List V} {a b st : Int} (h : okr V F a b st) (i : Nat) (hi : (i : Int) ≤ rlen a b st) :
    len_ (rmsN F a (rlen a b st) st i) = len_ F - i := by
  induction i with
  | zero => simp [rmsN]
  | succ i ih =>
    have ih := ih (by omega)
    have := pos_ok V h i (by omega)
    rw [rmsN_succ, g_rem_len _ _ (by omega), ih]; push_cast; omega
theorem rms_len : Ax.a_rms_len V := by
  intro F a b st i ⟨h0, h1, h2, h3, h4⟩
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simpa [rms] using rmsN_len V ⟨h2, h3, h4⟩ k h1

/-- what lies before the next position is untouched -/
theorem rmsN_low {F : List V} {a b st : Int} (h : okr V F a b st) (i : Nat) (hi : (i : Int) ≤ rlen a b st) (j : Int)
    (h0 : 0 ≤ j) (hj : ∀ k : Nat, k < i → j < pos a (rlen a b st) st k) :
    at_ (rmsN F a (rlen a b st) st i) j = at_ F j := by
  induction i with
  | zero => simp [rmsN]
  | succ i ih =>
    have ih := ih (by omega) (fun k hk => hj k (by omega))
    have hl := rmsN_len V h i (by omega)
    have hp := pos_ok V h i (by omega)
    have := hj i (by omega)
    rw [rmsN_succ, g_rem_at _ _ _ ⟨by omega, by omega, by omega, by omega⟩, if_pos this, ih]

theorem pos_lt {a n st : Int} (h : st ≠ 0) (k i : Nat) (hk : k < i) : pos a n st i < pos a n st k := by
  induction i with
  | zero => omega
  | succ i ih =>
    have := pos_dec (a := a) (n := n) h i
    rcases Nat.lt_succ_iff_lt_or_eq.mp hk with h2 | rfl
    · have := ih h2; omega
    · exact this

theorem rmsN_mem {F : List V} {a b st : Int} (hd : F.Nodup) (h : okr V F a b st) (i : Nat) (hi : (i : Int) ≤ rlen a b st) :
    (rmsN F a (rlen a b st) st i).Nodup ∧
    ∀ v, v ∈ rmsN F a (rlen a b st) st i ↔ v ∈ F ∧ ∀ k : Nat, k < i → v ≠ at_ F (pos a (rlen a b st) st k) := by
  induction i with
  | zero => simp [rmsN, hd]
  | succ i ih =>
    obtain ⟨n1, n2⟩ := ih (by omega)
    have hl := rmsN_len V h i (by omega)
    have hp := pos_ok V h i (by omega)
    have hlow := rmsN_low V h i (by omega) _ hp.1 (fun k hk => pos_lt h.1 k i hk)
    obtain ⟨p, hpe⟩ := Int.eq_ofNat_of_zero_le hp.1
    rw [hpe] at hlow
    have hpl : p < (rmsN F a (rlen a b st) st i).length := by simp only [len_] at hl; simp only [len_] at hp; omega
    rw [at_get _ p hpl] at hlow
    have hrem : rmsN F a (rlen a b st) st (i + 1) = (rmsN F a (rlen a b st) st i).erase (at_ F p) := by
      rw [rmsN_succ, hpe, ← hlow, List.Nodup.erase_getElem n1]
      simp [rem_]
    rw [hrem]
    refine ⟨n1.erase _, ?_⟩
    intro v
    rw [n1.mem_erase_iff, n2 v]
    constructor
    · rintro ⟨h1, h2, h3⟩
      refine ⟨h2, fun k hk => ?_⟩
      rcases Nat.lt_succ_iff_lt_or_eq.mp hk with h4 | rfl
      · exact h3 k h4
      · rw [hpe]; exact h1
    · rintro ⟨h1, h2⟩
      refine ⟨?_, h1, fun k hk => h2 k (by omega)⟩
      have := h2 i (by omega)
      rwa [hpe] at this

theorem distinct_rms : Ax.a_distinct_rms V := by
  intro F a b st i ⟨hd, h, h0, h1⟩
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simpa [rms, distinct] using (rmsN_mem V hd h k h1).1

theorem selseq_len : Ax.a_selseq_len V := by
  intro F a n st h; simp only [selseq, len_, List.length_map, List.length_range]; omega
theorem selseq_at : Ax.a_selseq_at V := by
  intro F a n st i ⟨h0, h1⟩
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  rw [at_get _ k (by simp only [selseq, List.length_map, List.length_range]; omega)]
  simp [selseq, mulf]

theorem sel_ok {F : List V} {a b st : Int} (h : okr V F a b st) (i : Nat) (hi : (i : Int) < rlen a b st) :
    0 ≤ a + i * st ∧ a + i * st < len_ F := by
  obtain ⟨h1, h2, h3⟩ := h
  rcases lt_or_gt_of_ne h1 with hs | hs
  · have := rlen_in_neg V a b st i ⟨by omega, hi, hs⟩
    have := h3 hs
    simp only [mulf] at *; omega
  · have := rlen_in V a b st i ⟨by omega, by omega, hs⟩
    have := h2 hs
    simp only [mulf] at *; omega
theorem mem_selseq (F : List V) (a n st : Int) (v : V) :
    v ∈ selseq F a n st ↔ ∃ k : Nat, (k : Int) < n ∧ at_ F (a + k * st) = v := by
  simp only [selseq, List.mem_map, List.mem_range]
  constructor
  · rintro ⟨k, h, e⟩; exact ⟨k, by omega, e⟩
  · rintro ⟨k, h, e⟩; exact ⟨k, by omega, e⟩
theorem at_mem8 {F : List V} {j : Int} (h : 0 ≤ j ∧ j < len_ F) : at_ F j ∈ F := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  rw [at_get F k (by have := h.2; simp only [len_] at this; omega)]
  exact List.getElem_mem _
theorem selseq_sub : Ax.a_selseq_sub V := by
  intro F a b st h v
  simp only [setof, List.mem_toFinset, mem_selseq]
  rintro ⟨k, h1, rfl⟩
  exact at_mem8 V (sel_ok V h k h1)
theorem selseq_distinct : Ax.a_selseq_distinct V := by
  intro F a b st ⟨hd, h⟩
  simp only [distinct, selseq]
  apply List.Nodup.map_on _ List.nodup_range
  intro i hi j hj e
  simp only [List.mem_range] at hi hj
  have h1 := sel_ok V h i (by omega)
  have h2 := sel_ok V h j (by omega)
  obtain ⟨p, hp⟩ := Int.eq_ofNat_of_zero_le h1.1
  obtain ⟨q, hq⟩ := Int.eq_ofNat_of_zero_le h2.1
  simp only [len_] at h1 h2
  rw [hp, hq, at_get F p (by omega), at_get F q (by omega), List.Nodup.getElem_inj_iff hd] at e
  have : (i : Int) * st = j * st := by omega
  have := mul_right_cancel₀ h.1 this
  omega
theorem setof_rms : Ax.a_setof_rms V := by
  intro F a b st ⟨hd, h⟩
  have hn : 0 ≤ rlen a b st := by
    rcases lt_or_gt_of_ne h.1 with hs | hs
    · exact (rlen_neg V a b st hs).1
    · exact (rlen_pos V a b st hs).1
  obtain ⟨n, hn⟩ := Int.eq_ofNat_of_zero_le hn
  have hm := (rmsN_mem V hd h n (by omega)).2
  ext v
  simp only [setof, sdiff, Finset.mem_sdiff, List.mem_toFinset, mem_selseq]
  have e : rms F a (rlen a b st) st (rlen a b st) = rmsN F a (rlen a b st) st n := by simp [rms, hn]
  rw [e, hm v]
  constructor
  · rintro ⟨h1, h2⟩
    refine ⟨h1, ?_⟩
    rintro ⟨k, hk, ek⟩
    by_cases hs : st > 0
    · apply h2 (n - 1 - k) (by omega)
      have : ((n - 1 - k : Nat) : Int) = n - 1 - k := by omega
      simp only [pos, if_pos hs, this, hn]
      rw [← ek]; congr 2; congr 1; ring
    · apply h2 k (by omega)
      simp only [pos, if_neg hs]; exact ek.symm
  · rintro ⟨h1, h2⟩
    refine ⟨h1, fun k hk e2 => h2 ?_⟩
    by_cases hs : st > 0
    · refine ⟨n - 1 - k, by omega, ?_⟩
      have : ((n - 1 - k : Nat) : Int) = n - 1 - k := by omega
      rw [e2, this]; simp only [pos, if_pos hs, hn]
    · refine ⟨k, by omega, ?_⟩
      rw [e2]; simp only [pos, if_neg hs]

/-! ### the equations behind the smart constructors -/
macro "rwsolve" : tactic => `(tactic| (
  simp (disch := omega) only [g_upd_at, g_ins_at, g_rem_at]
  try (split_ifs <;> first | rfl | omega | (congr 1; omega))))

theorem rw_at_unit : Ax.a_rw_at_unit V := fun x => (g_unit x).2
theorem rw_at_upd_eq : Ax.a_rw_at_upd_eq V := by intro s i x h; rw [g_upd_at _ _ _ _ (by omega)]; simp
theorem rw_at_upd_ne : Ax.a_rw_at_upd_ne V := by
  intro s i j x h; rw [g_upd_at _ _ _ _ (by omega), if_neg (by omega)]
theorem rw_at_ins_eq : Ax.a_rw_at_ins_eq V := by intro s i x h; rw [g_ins_at _ _ _ _ (by omega)]; simp
theorem rw_at_ins_lt : Ax.a_rw_at_ins_lt V := by
  intro s i j x h; rw [g_ins_at _ _ _ _ (by omega), if_pos (by omega)]
theorem rw_at_ins_gt : Ax.a_rw_at_ins_gt V := by
  intro s i j x h; rw [g_ins_at _ _ _ _ (by omega), if_neg (by omega), if_neg (by omega)]
theorem rw_at_rem_lt : Ax.a_rw_at_rem_lt V := by
  intro s i j h; rw [g_rem_at _ _ _ (by omega), if_pos (by omega)]
theorem rw_at_rem_ge : Ax.a_rw_at_rem_ge V := by
  intro s i j h; rw [g_rem_at _ _ _ (by omega), if_neg (by omega)]
theorem rw_at_cat_unit_l : Ax.a_rw_at_cat_unit_l V := by intro s x; simp [at_, cat_, unit_]
theorem rw_at_cat_unit_r : Ax.a_rw_at_cat_unit_r V := by
  intro s x
  have h1 := g_len_nonneg s
  have h2 := g_unit x
  rw [g_cat_at _ _ _ (by omega), if_neg (by omega)]
  have : len_ s - len_ s = 0 := by omega
  rw [this, h2.2]
theorem rw_sl_all : Ax.a_rw_sl_all V := by intro s; simp [sl_, len_]
theorem rw_sl_none : Ax.a_rw_sl_none V := by
  intro s i h
  apply g_len_zero
  rw [g_sl_len _ _ _ (by omega)]; omega
theorem rw_upd_upd : Ax.a_rw_upd_upd V := by
  intro s i x y h
  have l1 := g_upd_len s i x
  apply ext_at
  · simp only [g_upd_len]
  · intro k h1 h2
    simp only [g_upd_len] at h2
    rwsolve
theorem rw_card_semp : Ax.a_rw_card_semp V := by
  simp [Ax.a_rw_card_semp, card]
theorem rw_seqof_semp : Ax.a_rw_seqof_semp V := by
  simp [Ax.a_rw_seqof_semp, SC.seqof]
theorem rw_ssort_emp : Ax.a_rw_ssort_emp V := rfl
theorem rw_upd_upd_ne : Ax.a_rw_upd_upd_ne V := by
  intro s i j x y h
  have l1 := g_upd_len s i x
  have l2 := g_upd_len s j y
  have l3 := g_upd_len (upd_ s i x) j y
  have l4 := g_upd_len (upd_ s j y) i x
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega)]
    by_cases c : i = k
    · rw [if_pos c, if_neg (by omega), if_pos c]
    · rw [if_neg c, if_neg c]
theorem rw_upd_ins_eq : Ax.a_rw_upd_ins_eq V := by
  intro s i x y h
  have l1 := g_ins_len s i x h
  apply ext_at
  · rw [g_upd_len, g_ins_len _ _ _ h, g_ins_len _ _ _ h]
  · intro k h1 h2
    rw [g_upd_len] at h2
    rwsolve
theorem rw_upd_ins_lt : Ax.a_rw_upd_ins_lt V := by
  intro s i j x y h
  have l1 := g_ins_len s j x (by omega)
  have l2 := g_upd_len s i y
  have l3 := g_ins_len (upd_ s i y) j x (by omega)
  have l4 := g_upd_len (ins_ s j x) i y
  apply ext_at
  · omega
  · intro k h1 h2
    rwsolve
theorem rw_upd_ins_gt : Ax.a_rw_upd_ins_gt V := by
  intro s i j x y h
  have l1 := g_ins_len s j x (by omega)
  have l2 := g_upd_len s (i - 1) y
  have l3 := g_ins_len (upd_ s (i - 1) y) j x (by omega)
  have l4 := g_upd_len (ins_ s j x) i y
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_upd_at _ _ _ _ (by omega), g_ins_at _ _ _ _ (by omega), g_ins_at _ _ _ _ (by omega)]
    by_cases c : k < j
    · rw [if_neg (by omega), if_pos c, if_pos c, g_upd_at _ _ _ _ (by omega), if_neg (by omega)]
    · by_cases c2 : k = j
      · rw [if_neg (by omega), if_neg c, if_pos c2, if_neg c, if_pos c2]
      · rw [if_neg c, if_neg c2, if_neg c, if_neg c2, g_upd_at _ _ _ _ (by omega)]
        split_ifs <;> first | rfl | omega
theorem rw_upd_rem_lt : Ax.a_rw_upd_rem_lt V := by
  intro s i j y h
  have l1 := g_rem_len s j (by omega)
  have l2 := g_upd_len s i y
  have l3 := g_rem_len (upd_ s i y) j (by omega)
  have l4 := g_upd_len (rem_ s j) i y
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_upd_at _ _ _ _ (by omega), g_rem_at _ _ _ (by omega), g_rem_at _ _ _ (by omega)]
    by_cases c : k < j
    · rw [if_pos c, if_pos c, g_upd_at _ _ _ _ (by omega)]
    · rw [if_neg c, if_neg c, g_upd_at _ _ _ _ (by omega), if_neg (by omega), if_neg (by omega)]
theorem rw_upd_rem_ge : Ax.a_rw_upd_rem_ge V := by
  intro s i j y h
  have l1 := g_rem_len s j (by omega)
  have l2 := g_upd_len s (i + 1) y
  have l3 := g_rem_len (upd_ s (i + 1) y) j (by omega)
  have l4 := g_upd_len (rem_ s j) i y
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_upd_at _ _ _ _ (by omega), g_rem_at _ _ _ (by omega), g_rem_at _ _ _ (by omega)]
    by_cases c : k < j
    · rw [if_pos c, if_pos c, g_upd_at _ _ _ _ (by omega), if_neg (by omega), if_neg (by omega)]
    · rw [if_neg c, if_neg c, g_upd_at _ _ _ _ (by omega)]
      split_ifs <;> first | rfl | omega
theorem rw_rem_upd : Ax.a_rw_rem_upd V := by
  intro s i x h
  have l1 := g_upd_len s i x
  have l2 := g_rem_len s i h
  have l3 := g_rem_len (upd_ s i x) i (by omega)
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_rem_at _ _ _ (by omega), g_rem_at _ _ _ (by omega)]
    by_cases c : k < i
    · rw [if_pos c, if_pos c, g_upd_at _ _ _ _ (by omega), if_neg (by omega)]
    · rw [if_neg c, if_neg c, g_upd_at _ _ _ _ (by omega), if_neg (by omega)]
theorem rw_rem_upd_upd : Ax.a_rw_rem_upd_upd V := by
  intro s i j x y h
  have l1 := g_upd_len s i x
  have l2 := g_upd_len (upd_ s i x) j y
  have l3 := g_upd_len s j y
  have l4 := g_rem_len (upd_ (upd_ s i x) j y) i (by omega)
  have l5 := g_rem_len (upd_ s j y) i (by omega)
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_rem_at _ _ _ (by omega), g_rem_at _ _ _ (by omega)]
    by_cases c : k < i
    · rw [if_pos c, if_pos c, g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega),
        if_neg (show ¬ i = k by omega)]
    · rw [if_neg c, if_neg c, g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega),
        if_neg (show ¬ i = k + 1 by omega)]
theorem rw_rem_ins : Ax.a_rw_rem_ins V := by
  intro s i x h
  have l1 := g_ins_len s i x h
  have l2 := g_rem_len (ins_ s i x) i (by omega)
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_rem_at _ _ _ (by omega)]
    by_cases c : k < i
    · rw [if_pos c, g_ins_at _ _ _ _ (by omega), if_pos c]
    · rw [if_neg c, g_ins_at _ _ _ _ (by omega), if_neg (by omega), if_neg (by omega)]
      congr 1; omega
theorem rw_ins_rem : Ax.a_rw_ins_rem V := by
  intro s i x h
  have l1 := g_rem_len s i h
  have l2 := g_ins_len (rem_ s i) i x (by omega)
  have l3 := g_upd_len s i x
  apply ext_at
  · omega
  · intro k h1 h2
    rw [g_ins_at _ _ _ _ (by omega), g_upd_at _ _ _ _ (by omega)]
    by_cases c : k < i
    · rw [if_pos c, g_rem_at _ _ _ (by omega), if_pos c, if_neg (by omega)]
    · by_cases c2 : k = i
      · rw [if_neg c, if_pos c2, if_pos c2.symm]
      · rw [if_neg c, if_neg c2, g_rem_at _ _ _ (by omega), if_neg (by omega), if_neg (by omega)]
        congr 1; omega
/-! ### counting where nothing occurs twice; sizes of sets -/
theorem cnt_distinct : Ax.a_cnt_distinct V := by
  intro s v hd
  by_cases h : ∃ i : Int, 0 ≤ i ∧ i < len_ s ∧ eqc (at_ s i) = eqc v ∧ at_ s i ≠ v
  · right
    simp only [cw, dif_pos h]
    exact h.choose_spec
  · left
    have key : ∀ x ∈ s, (decide (eqc x = eqc v) = true ↔ (x == v) = true) := by
      intro x hx
      obtain ⟨q, hq, e⟩ := List.getElem_of_mem hx
      constructor
      · intro hh
        by_contra hc
        apply h
        refine ⟨(q : Int), by omega, by simp only [len_]; omega, ?_, ?_⟩
        · rw [at_get s q hq, e]; simpa using hh
        · rw [at_get s q hq, e]; simpa using hc
      · intro hh
        have : x = v := by simpa using hh
        simp [this]
    have e1 : cnt s v (len_ s) = (s.count v : Int) := by
      simp only [cnt, len_, Int.toNat_natCast, List.take_length, List.count]
      congr 1
      exact List.countP_congr key
    rw [e1]
    simp only [mem, setof, List.mem_toFinset]
    by_cases hm : v ∈ s
    · rw [if_pos hm, List.count_eq_one_of_mem hd hm]; rfl
    · rw [if_neg hm, List.count_eq_zero_of_not_mem hm]; rfl
theorem card_sunion : Ax.a_card_sunion V := by
  intro S T
  simp only [card, sunion]
  have h1 := Finset.card_le_card (Finset.subset_union_left (s₁ := S) (s₂ := T))
  have h2 := Finset.card_le_card (Finset.subset_union_right (s₁ := S) (s₂ := T))
  have h3 := Finset.card_union_le S T
  refine ⟨by omega, by omega, by omega, fun h => ?_, fun h => ?_⟩
  · exact (Finset.eq_of_subset_of_card_le Finset.subset_union_left (by omega)).symm
  · exact (Finset.eq_of_subset_of_card_le Finset.subset_union_right (by omega)).symm
theorem card_sinter : Ax.a_card_sinter V := by
  intro S T
  simp only [card, sinter]
  have h1 := Finset.card_le_card (Finset.inter_subset_left (s₁ := S) (s₂ := T))
  have h2 := Finset.card_le_card (Finset.inter_subset_right (s₁ := S) (s₂ := T))
  refine ⟨by omega, by omega, fun h => ?_, fun h => ?_⟩
  · exact Finset.eq_of_subset_of_card_le Finset.inter_subset_left (by omega)
  · exact Finset.eq_of_subset_of_card_le Finset.inter_subset_right (by omega)
theorem card_sdiff : Ax.a_card_sdiff V := by
  intro S T
  simp only [card, sdiff]
  have h1 := Finset.card_le_card (Finset.sdiff_subset (s := S) (t := T))
  refine ⟨by omega, fun h => ?_⟩
  exact Finset.eq_of_subset_of_card_le Finset.sdiff_subset (by omega)
theorem disjoint_elim : Ax.a_disjoint_elim V := by
  intro S T v h hT
  have := h.1 (Finset.mem_inter.mpr ⟨h.2, hT⟩)
  simp at this
end SC.Pr
