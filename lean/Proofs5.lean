import Proofs4
set_option linter.all false
open Classical
namespace SC.Pr
variable (V : Type) [Ctx V]

/-! ### sortedness, stable sort -/
theorem sorted_emp : Ax.a_sorted_emp V := by show sortedV []; rw [sortedV_iff]; simp
theorem sorted_unit : Ax.a_sorted_unit V := by intro v; rw [sortedV_iff]; simp [unit_]
theorem sorted_sl : Ax.a_sorted_sl V := by
  intro s a b h
  rw [sortedV_iff] at *
  exact (h.1.sublist (List.take_sublist _ _)).sublist (List.drop_sublist _ _)
theorem sorted_cat : Ax.a_sorted_cat V := by
  intro s t
  rw [sortedV_iff, sortedV_iff, sortedV_iff]
  simp only [cat_, List.pairwise_append]
  constructor
  · rintro ⟨h1, h2, h3⟩
    refine ⟨h1, h2, ?_⟩
    by_cases e1 : len_ s = 0
    · exact Or.inl e1
    by_cases e2 : len_ t = 0
    · exact Or.inr (Or.inl e2)
    refine Or.inr (Or.inr ?_)
    simp only [len_] at *
    have e : (s.length : Int) - 1 = ((s.length - 1 : Nat) : Int) := by omega
    have e0 : (0 : Int) = ((0 : Nat) : Int) := rfl
    rw [e, e0, at_get s _ (by omega), at_get t 0 (by omega)]
    exact h3 _ (List.getElem_mem _) _ (List.getElem_mem _)
  · rintro ⟨h1, h2, h3⟩
    refine ⟨h1, h2, fun x hx y hy => ?_⟩
    have l1 := List.length_pos_of_mem hx
    have l2 := List.length_pos_of_mem hy
    rcases h3 with h3 | h3 | h3
    · simp only [len_] at h3; omega
    · simp only [len_] at h3; omega
    · simp only [len_] at h3
      have e : (s.length : Int) - 1 = ((s.length - 1 : Nat) : Int) := by omega
      have e0 : (0 : Int) = ((0 : Nat) : Int) := rfl
      rw [e, e0, at_get s _ (by omega), at_get t 0 (by omega)] at h3
      obtain ⟨n, hn, rfl⟩ := List.getElem_of_mem hx
      obtain ⟨m, hm, rfl⟩ := List.getElem_of_mem hy
      have a1 : ord s[n] ≤ ord s[s.length - 1] := by
        by_cases e : n = s.length - 1
        · subst e; exact le_refl _
        · exact List.pairwise_iff_getElem.1 h1 n (s.length - 1) hn (by omega) (by omega)
      have a2 : ord t[0] ≤ ord t[m] := by
        by_cases e : m = 0
        · subst e; exact le_refl _
        · exact List.pairwise_iff_getElem.1 h2 0 m (by omega) hm (by omega)
      omega
theorem flat_sorted : Ax.a_flat_sorted V := by
  intro LL i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.2.1
  have hn : n < LL.length := by have := h.2.2; simp only [len_] at this; omega
  rw [at_get LL n hn]
  have hs := (sortedV_iff _).1 h.1
  rw [sortedV_iff]
  exact hs.sublist (List.sublist_flatten_of_mem (List.getElem_mem hn))
theorem ssort_sorted : Ax.a_ssort_sorted V := by
  intro s
  exact ⟨(sortedV_iff _).2 (ssort_SP s), by simp only [len_]; exact_mod_cast (ssort_perm s).length_eq⟩
theorem ssort_id : Ax.a_ssort_id V := fun s h => ssort_of_SP s ((sortedV_iff _).1 h)
theorem ssort_cat : Ax.a_ssort_cat V := by
  intro s t
  apply ssort_congr
  intro k
  simp only [cat_, List.filter_append, ssort_filter]
theorem ssort_cat_l : Ax.a_ssort_cat_l V := by
  intro s t
  apply ssort_congr
  intro k
  simp only [cat_, List.filter_append, ssort_filter]
theorem ssort_add' (F : List V) (v : V) : ssort (F ++ [v]) = ins_ (ssort F) (br (ssort F) (ord v)) v := by
  rw [ssort_snoc', insR_br _ _ (ssort_SP F)]
theorem sl_succ (s : List V) (n : Nat) (h : n < s.length) : sl_ s 0 ((n : Int) + 1) = sl_ s 0 (n : Int) ++ [at_ s (n : Int)] := by
  have e : ((n : Int) + 1).toNat = n + 1 := by omega
  simp only [sl_, e, Int.toNat_natCast, Int.toNat_zero, List.drop_zero, List.take_add_one, List.getElem?_eq_getElem h, at_get s n h]
  rfl
theorem ssort_snoc : Ax.a_ssort_snoc V := by
  intro F s i j h
  obtain ⟨h0, h1, rfl⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hn : n < s.length := by simp only [len_] at h1; omega
  rw [sl_succ V s n hn, cat_, cat_, ← List.append_assoc, ssort_add']
theorem ssort_add : Ax.a_ssort_add V := by
  intro F v h
  rw [cat_, unit_, ssort_add', ssort_of_SP F ((sortedV_iff _).1 h)]
theorem cat_sl0 : Ax.a_cat_sl0 V := by intro s t; simp [cat_, sl_]
theorem cat_emp : Ax.a_cat_emp V := by intro s; simp [cat_]
theorem sl_full : Ax.a_sl_full V := by intro s i h; subst h; simp [sl_, len_]
theorem nsort_len : Ax.a_nsort_len V := fun s => rfl

/-! ### first difference, searching, counting -/
theorem fdiff : Ax.a_fdiff V := by
  intro s t
  obtain ⟨h1, h2, h3, h4⟩ := fdiffN_spec s t
  simp only [SC.fdiff, len_, at_nat]
  refine ⟨by omega, by omega, by omega, ?_⟩
  rcases h3 with h | h | h
  · exact Or.inl (by omega)
  · exact Or.inr (Or.inl (by omega))
  · exact Or.inr (Or.inr h)
theorem fdiff_min : Ax.a_fdiff_min V := by
  intro s t i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  rw [at_nat, at_nat]
  exact (fdiffN_spec s t).2.2.2 n (by have := h.2; simp only [SC.fdiff] at this; omega)
theorem first_range : Ax.a_first_range V := by
  intro s v
  obtain ⟨h1, h2, h3⟩ := firstN_spec v s
  simp only [first_, len_]
  refine ⟨by omega, by omega, fun h => ?_⟩
  rw [at_get s _ (by omega)]
  exact h2 (by omega)
theorem first_min : Ax.a_first_min V := by
  intro s v i h
  obtain ⟨h1, h2, h3⟩ := firstN_spec v s
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have := h.2
  simp only [first_] at this
  rw [at_get s n (by omega)]
  exact h3 n (by omega) (by omega)
theorem firstf_range : Ax.a_firstf_range V := by
  intro s v a h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨h1, h2, h3⟩ := firstN_spec v (s.drop n)
  have hl := h.2
  simp only [firstf, len_, Int.toNat_natCast, List.length_drop] at *
  refine ⟨by omega, by omega, fun hh => ?_⟩
  have e : (n : Int) + (firstN v (s.drop n) : Int) = ((n + firstN v (s.drop n) : Nat) : Int) := by omega
  rw [e, at_get s _ (by omega)]
  have := h2 (by omega)
  rwa [List.getElem_drop] at this
theorem firstf_min : Ax.a_firstf_min V := by
  intro s v a i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
  obtain ⟨h1, h2, h3⟩ := firstN_spec v (s.drop n)
  have hl := h.2
  simp only [firstf, Int.toNat_natCast, List.length_drop] at *
  have hm : m < s.length := by omega
  rw [at_get s _ hm]
  have := h3 (m - n) (by omega) (by omega)
  rw [List.getElem_drop] at this
  have e : n + (m - n) = m := by omega
  simpa only [e] using this
theorem cnt_zero : Ax.a_cnt_zero V := by intro s v; simp [cnt]
theorem cnt_step : Ax.a_cnt_step V := by
  intro s v i j h
  obtain ⟨h0, h1, rfl⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hn : n < s.length := by simp only [len_] at h1; omega
  rw [at_get s n hn]
  exact_mod_cast cnt_succ s v n hn
theorem ne_of_ord {x v : V} (h : ord x ≠ ord v) : ¬ eqc x = eqc v := fun e => h (Ctx.coh x v e)
theorem cnt_lo : Ax.a_cnt_lo V := by
  intro s v i h
  obtain ⟨hs, h0, h1⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hr := bl_rng s (ord v)
  simp only [len_] at hr
  rw [cnt_const s v 0 n (by omega) (by omega)]
  · simp [cnt]
  · intro q hq _ hlt
    apply ne_of_ord
    have := (bl_spec s (ord v) hs).1 q (by omega) (by omega)
    rw [at_get s q hq] at this
    omega
theorem cnt_hi : Ax.a_cnt_hi V := by
  intro s v i h
  obtain ⟨hs, h0, h1⟩ := h
  have hr := br_rng s (ord v)
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
  simp only [len_] at *
  symm
  apply cnt_const s v n s.length (by omega) (by omega)
  intro q hq hle _
  apply ne_of_ord
  have := (br_spec s (ord v) hs).2 q (by omega) (by simp only [len_]; omega)
  rw [at_get s q hq] at this
  omega
theorem plain_iff (hp : isplain V) (x v : V) : eqc x = eqc v ↔ ord x = ord v := by
  have h1 := Ctx.plain_eq hp x
  have h2 := Ctx.plain_eq hp v
  simp only [eqc, ord] at *
  omega
theorem cnt_plain : Ax.a_cnt_plain V := by
  intro s v h
  obtain ⟨hp, hs⟩ := h
  have hl := bl_rng s (ord v)
  have hr := br_rng s (ord v)
  have hb := bl_le_br' s (ord v) hs
  obtain ⟨a, ha⟩ := Int.eq_ofNat_of_zero_le hl.1
  obtain ⟨b, hb'⟩ := Int.eq_ofNat_of_zero_le hr.1
  have sl := bl_spec s (ord v) hs
  have sr := br_spec s (ord v) hs
  have e1 : cnt s v (len_ s) = cnt s v (b : Int) := by
    symm
    exact cnt_hi V s v b ⟨hs, by omega, by omega⟩
  have e2 : cnt s v (a : Int) = 0 := cnt_lo V s v a ⟨hs, by omega, by omega⟩
  rw [e1, ha, hb']
  have hlen : b ≤ s.length := by simp only [len_] at hr; omega
  have := cnt_full s v a b (by omega) hlen (fun q hq h1 h2 => by
    rw [plain_iff V hp]
    have x1 := sl.2 q (by omega) (by simp only [len_]; omega)
    have x2 := sr.1 q (by omega) (by omega)
    rw [at_get s q hq] at x1 x2
    omega)
  rw [this, e2]; omega
theorem firstf_plain : Ax.a_firstf_plain V := by
  intro s v a h
  obtain ⟨hp, hs, ha0, ha1⟩ := h
  have hl := bl_rng s (ord v)
  have hr := br_rng s (ord v)
  have hb := bl_le_br' s (ord v) hs
  have sl := bl_spec s (ord v) hs
  have sr := br_spec s (ord v) hs
  obtain ⟨f1, f2, f3⟩ := firstf_range V s v a ⟨ha0, ha1⟩
  have fm := firstf_min V s v a
  have key : ∀ i, 0 ≤ i → i < len_ s → (eqc (at_ s i) = eqc v ↔ bl s (ord v) ≤ i ∧ i < br s (ord v)) := by
    intro i h0 h1
    rw [plain_iff V hp]
    constructor
    · intro e
      constructor
      · by_contra hc; have := sl.1 i h0 (by omega); omega
      · by_contra hc; have := sr.2 i (by omega) h1; omega
    · rintro ⟨h2, h3⟩
      have := sl.2 i h2 h1
      have := sr.1 i h0 h3
      omega
  have fin : firstf s v a < len_ s → bl s (ord v) ≤ firstf s v a ∧ firstf s v a < br s (ord v) :=
    fun hh => (key _ (by omega) hh).1 (f3 hh)
  have notin : ∀ i, 0 ≤ a ∧ a ≤ i ∧ i < firstf s v a → i < len_ s → ¬ (bl s (ord v) ≤ i ∧ i < br s (ord v)) :=
    fun i hi hlt hc => fm i hi ((key i (by omega) hlt).2 hc)
  by_cases c1 : bl s (ord v) ≥ br s (ord v)
  · rw [if_pos c1]; by_contra hc; have := fin (by omega); omega
  · rw [if_neg c1]
    by_cases c2 : a < bl s (ord v)
    · rw [if_pos c2]
      have := notin (bl s (ord v))
      by_contra hc
      by_cases hh : firstf s v a < len_ s
      · have := fin hh; exact this.elim (fun _ _ => notin (bl s (ord v)) ⟨ha0, by omega, by omega⟩ (by omega) ⟨by omega, by omega⟩)
      · exact notin (bl s (ord v)) ⟨ha0, by omega, by omega⟩ (by omega) ⟨by omega, by omega⟩
    · rw [if_neg c2]
      by_cases c3 : a < br s (ord v)
      · rw [if_pos c3]
        by_contra hc
        exact notin a ⟨ha0, by omega, by omega⟩ (by omega) ⟨by omega, by omega⟩
      · rw [if_neg c3]; by_contra hc; have := fin (by omega); omega
theorem first_plain : Ax.a_first_plain V := by
  intro s v h
  have h0 := firstf_plain V s v 0 ⟨h.1, h.2, by omega, by simp [len_]⟩
  have e : first_ s v = firstf s v 0 := by simp [first_, firstf]
  have hl := bl_rng s (ord v)
  rw [e, h0]
  split_ifs <;> omega

/-! ### chunks -/
theorem chunks_len : Ax.a_chunks_len V := by
  intro s m h
  obtain ⟨h1, h2, _⟩ := chunksN_spec m.toNat (by omega) s.length s (le_refl _)
  refine ⟨?_, h1⟩
  simp only [len_, chunks]
  exact_mod_cast h2
theorem chunks_at : Ax.a_chunks_at V := by
  intro s m i h
  obtain ⟨hm, h0, h1⟩ := h
  obtain ⟨_, _, h3⟩ := chunksN_spec m.toNat (by omega) s.length s (le_refl _)
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simp only [len_] at *
  have hn : n < (chunks s m).length := by omega
  have := h3 n hn
  rw [at_get _ n hn]
  simp only [chunks] at *
  refine ⟨by omega, by omega, fun hh => ?_⟩
  have := this.2.2 (by omega)
  omega

/-! ### halves and powers of two -/
theorem hlf : Ax.a_hlf V := by intro i; simp only [SC.hlf]; omega
theorem pow2_pos : Ax.a_pow2_pos V := by
  intro i h
  obtain ⟨k, rfl⟩ := h
  cases k with
  | zero => simp
  | succ k =>
    have : (2 : Int) ^ k ≥ 1 := one_le_pow₀ (by norm_num)
    rw [pow_succ]
    simp only [SC.hlf]
    omega
theorem pow2_half : Ax.a_pow2_half V := by
  intro i h
  obtain ⟨⟨k, rfl⟩, h1⟩ := h
  cases k with
  | zero => simp at h1
  | succ k => exact ⟨k, by rw [pow_succ]; simp only [SC.hlf]; omega⟩
theorem pow2_dbl : Ax.a_pow2_dbl V := by
  intro i j h
  obtain ⟨⟨k, rfl⟩, rfl⟩ := h
  exact ⟨k + 1, by rw [pow_succ]; ring⟩
theorem pow2_one : Ax.a_pow2_one V := by
  rintro i (h | h)
  · exact ⟨0, by simpa using h⟩
  · exact ⟨1, by simpa using h⟩
theorem npow : Ax.a_npow V := by
  intro i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
  simp only [SC.npow, Int.toNat_natCast]
  refine ⟨⟨_, rfl⟩, ?_, ?_⟩
  · have := Nat.lt_pow_succ_log_self (b := 2) (by norm_num) n
    exact_mod_cast this
  · have := Nat.pow_log_le_self 2 (x := n) (by omega)
    rw [pow_succ]
    have h2 : ((2 : Int) ^ Nat.log 2 n) ≤ n := by exact_mod_cast this
    omega
end SC.Pr
