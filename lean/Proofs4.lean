import Proofs3
set_option linter.all false
open Classical
namespace SC.Pr
variable (V : Type) [Ctx V]

/-! ### sequences -/
theorem len_nonneg_V : Ax.a_len_nonneg_V V := fun s => g_len_nonneg s
theorem len_emp_V : Ax.a_len_emp_V V := g_len_emp
theorem len_zero_V : Ax.a_len_zero_V V := fun s h => g_len_zero s h
theorem unit_V : Ax.a_unit_V V := fun x => g_unit x
theorem cat_len_V : Ax.a_cat_len_V V := fun s t => g_cat_len s t
theorem cat_at_V : Ax.a_cat_at_V V := fun s t i h => g_cat_at s t i h
theorem sl_len_V : Ax.a_sl_len_V V := fun s a b h => g_sl_len s a b h
theorem sl_at_V : Ax.a_sl_at_V V := fun s a b i h => g_sl_at s a b i h
theorem upd_len_V : Ax.a_upd_len_V V := fun s i x => g_upd_len s i x
theorem upd_at_V : Ax.a_upd_at_V V := fun s i x j h => g_upd_at s i x j h
theorem ins_len_V : Ax.a_ins_len_V V := fun s i x h => g_ins_len s i x h
theorem ins_at_V : Ax.a_ins_at_V V := fun s i x j h => g_ins_at s i x j h
theorem rem_len_V : Ax.a_rem_len_V V := fun s i h => g_rem_len s i h
theorem rem_at_V : Ax.a_rem_at_V V := fun s i j h => g_rem_at s i j h
theorem rev_len_V : Ax.a_rev_len_V V := fun s => g_rev_len s
theorem rev_at_V : Ax.a_rev_at_V V := fun s i h => g_rev_at s i h
theorem rep_le0_V : Ax.a_rep_le0_V V := fun s i h => g_rep_le0 s i h
theorem rep_len_V : Ax.a_rep_len_V V := fun s i h => g_rep_len s i h
theorem len_nonneg_I : Ax.a_len_nonneg_I V := fun s => g_len_nonneg s
theorem len_emp_I : Ax.a_len_emp_I V := g_len_emp
theorem len_zero_I : Ax.a_len_zero_I V := fun s h => g_len_zero s h
theorem unit_I : Ax.a_unit_I V := fun x => g_unit x
theorem cat_len_I : Ax.a_cat_len_I V := fun s t => g_cat_len s t
theorem cat_at_I : Ax.a_cat_at_I V := fun s t i h => g_cat_at s t i h
theorem sl_len_I : Ax.a_sl_len_I V := fun s a b h => g_sl_len s a b h
theorem sl_at_I : Ax.a_sl_at_I V := fun s a b i h => g_sl_at s a b i h
theorem upd_len_I : Ax.a_upd_len_I V := fun s i x => g_upd_len s i x
theorem upd_at_I : Ax.a_upd_at_I V := fun s i x j h => g_upd_at s i x j h
theorem ins_len_I : Ax.a_ins_len_I V := fun s i x h => g_ins_len s i x h
theorem ins_at_I : Ax.a_ins_at_I V := fun s i x j h => g_ins_at s i x j h
theorem rem_len_I : Ax.a_rem_len_I V := fun s i h => g_rem_len s i h
theorem rem_at_I : Ax.a_rem_at_I V := fun s i j h => g_rem_at s i j h
theorem rev_len_I : Ax.a_rev_len_I V := fun s => g_rev_len s
theorem rev_at_I : Ax.a_rev_at_I V := fun s i h => g_rev_at s i h
theorem rep_le0_I : Ax.a_rep_le0_I V := fun s i h => g_rep_le0 s i h
theorem rep_len_I : Ax.a_rep_len_I V := fun s i h => g_rep_len s i h
theorem len_nonneg_SV : Ax.a_len_nonneg_SV V := fun s => g_len_nonneg s
theorem len_emp_SV : Ax.a_len_emp_SV V := g_len_emp
theorem len_zero_SV : Ax.a_len_zero_SV V := fun s h => g_len_zero s h
theorem unit_SV : Ax.a_unit_SV V := fun x => g_unit x
theorem cat_len_SV : Ax.a_cat_len_SV V := fun s t => g_cat_len s t
theorem cat_at_SV : Ax.a_cat_at_SV V := fun s t i h => g_cat_at s t i h
theorem sl_len_SV : Ax.a_sl_len_SV V := fun s a b h => g_sl_len s a b h
theorem sl_at_SV : Ax.a_sl_at_SV V := fun s a b i h => g_sl_at s a b i h
theorem upd_len_SV : Ax.a_upd_len_SV V := fun s i x => g_upd_len s i x
theorem upd_at_SV : Ax.a_upd_at_SV V := fun s i x j h => g_upd_at s i x j h
theorem ins_len_SV : Ax.a_ins_len_SV V := fun s i x h => g_ins_len s i x h
theorem ins_at_SV : Ax.a_ins_at_SV V := fun s i x j h => g_ins_at s i x j h
theorem rem_len_SV : Ax.a_rem_len_SV V := fun s i h => g_rem_len s i h
theorem rem_at_SV : Ax.a_rem_at_SV V := fun s i j h => g_rem_at s i j h
theorem rev_len_SV : Ax.a_rev_len_SV V := fun s => g_rev_len s
theorem rev_at_SV : Ax.a_rev_at_SV V := fun s i h => g_rev_at s i h
theorem rep_le0_SV : Ax.a_rep_le0_SV V := fun s i h => g_rep_le0 s i h
theorem rep_len_SV : Ax.a_rep_len_SV V := fun s i h => g_rep_len s i h
theorem len_nonneg_SI : Ax.a_len_nonneg_SI V := fun s => g_len_nonneg s
theorem len_emp_SI : Ax.a_len_emp_SI V := g_len_emp
theorem len_zero_SI : Ax.a_len_zero_SI V := fun s h => g_len_zero s h
theorem unit_SI : Ax.a_unit_SI V := fun x => g_unit x
theorem cat_len_SI : Ax.a_cat_len_SI V := fun s t => g_cat_len s t
theorem cat_at_SI : Ax.a_cat_at_SI V := fun s t i h => g_cat_at s t i h
theorem sl_len_SI : Ax.a_sl_len_SI V := fun s a b h => g_sl_len s a b h
theorem sl_at_SI : Ax.a_sl_at_SI V := fun s a b i h => g_sl_at s a b i h
theorem upd_len_SI : Ax.a_upd_len_SI V := fun s i x => g_upd_len s i x
theorem upd_at_SI : Ax.a_upd_at_SI V := fun s i x j h => g_upd_at s i x j h
theorem ins_len_SI : Ax.a_ins_len_SI V := fun s i x h => g_ins_len s i x h
theorem ins_at_SI : Ax.a_ins_at_SI V := fun s i x j h => g_ins_at s i x j h
theorem rem_len_SI : Ax.a_rem_len_SI V := fun s i h => g_rem_len s i h
theorem rem_at_SI : Ax.a_rem_at_SI V := fun s i j h => g_rem_at s i j h
theorem rev_len_SI : Ax.a_rev_len_SI V := fun s => g_rev_len s
theorem rev_at_SI : Ax.a_rev_at_SI V := fun s i h => g_rev_at s i h
theorem rep_le0_SI : Ax.a_rep_le0_SI V := fun s i h => g_rep_le0 s i h
theorem rep_len_SI : Ax.a_rep_len_SI V := fun s i h => g_rep_len s i h

/-! ### order and bisection -/
theorem sortedV_elim : Ax.a_sortedV_elim V := fun s i j h => h.1 i j h.2.1 h.2.2.1 h.2.2.2
theorem bl_range : Ax.a_bl_range V := fun s k => bl_rng s k
theorem br_range : Ax.a_br_range V := fun s k => br_rng s k
theorem bl_below : Ax.a_bl_below V := fun s k i h => (bl_spec s k h.1).1 i h.2.1 h.2.2
theorem bl_above : Ax.a_bl_above V := fun s k i h => (bl_spec s k h.1).2 i h.2.1 h.2.2
theorem br_below : Ax.a_br_below V := fun s k i h => (br_spec s k h.1).1 i h.2.1 h.2.2
theorem br_above : Ax.a_br_above V := fun s k i h => (br_spec s k h.1).2 i h.2.1 h.2.2
theorem bl_bound : Ax.a_bl_bound V := fun s k h =>
  ⟨fun h1 => (bl_spec s k h).1 _ (by omega) (by omega), fun h1 => (bl_spec s k h).2 _ (by omega) h1⟩
theorem br_bound : Ax.a_br_bound V := fun s k h =>
  ⟨fun h1 => (br_spec s k h).1 _ (by omega) (by omega), fun h1 => (br_spec s k h).2 _ (by omega) h1⟩
theorem bl_le_br : Ax.a_bl_le_br V := fun s k h => bl_le_br' s k h
theorem sortedI_elim : Ax.a_sortedI_elim V := fun s i j h => h.1 i j h.2.1 h.2.2.1 h.2.2.2
theorem blI_range : Ax.a_blI_range V := fun s k => blI_rng s k
theorem brI_range : Ax.a_brI_range V := fun s k => brI_rng s k
theorem blI_below : Ax.a_blI_below V := fun s k i h => (blI_spec s k h.1).1 i h.2.1 h.2.2
theorem blI_above : Ax.a_blI_above V := fun s k i h => (blI_spec s k h.1).2 i h.2.1 h.2.2
theorem brI_below : Ax.a_brI_below V := fun s k i h => (brI_spec s k h.1).1 i h.2.1 h.2.2
theorem brI_above : Ax.a_brI_above V := fun s k i h => (brI_spec s k h.1).2 i h.2.1 h.2.2
theorem blI_bound : Ax.a_blI_bound V := fun s k h =>
  ⟨fun h1 => (blI_spec s k h).1 _ (by omega) (by omega), fun h1 => (blI_spec s k h).2 _ (by omega) h1⟩
theorem brI_bound : Ax.a_brI_bound V := fun s k h =>
  ⟨fun h1 => (brI_spec s k h).1 _ (by omega) (by omega), fun h1 => (brI_spec s k h).2 _ (by omega) h1⟩

/-! ### buckets -/
theorem P_zero : Ax.a_P_zero V := by intro LL; simp [P, PN]
theorem P_total : Ax.a_P_total V := by
  intro LL
  simp only [P, len_, flat, Int.toNat_natCast, PN_all LL _ (le_refl _)]
theorem P_next : Ax.a_P_next V := by
  intro LL i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have h1 := h.2
  simp only [len_] at h1
  have hn : n < LL.length := by omega
  have e : ((n : Int) + 1).toNat = n + 1 := by omega
  rw [at_get LL n hn]
  simp only [P, len_, e, Int.toNat_natCast, PN_succ LL n hn]
  push_cast; rfl
theorem P_mono : Ax.a_P_mono V := by
  intro LL i j h
  have hj := h.2.2
  simp only [len_] at hj
  have hn := P_next V LL i ⟨h.1, by simp only [len_]; omega⟩
  rw [← hn]
  simp only [P]
  have := PN_mono LL (i + 1).toNat j.toNat (by omega)
  exact_mod_cast this
theorem P_range : Ax.a_P_range V := by
  intro LL i h
  simp only [P, len_, flat] at *
  have := PN_mono LL i.toNat LL.length (by omega)
  rw [PN_all LL LL.length (le_refl _)] at this
  omega
theorem flat_at : Ax.a_flat_at V := by
  intro LL i j h
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have hn : n < LL.length := by simp only [len_] at h1; omega
  rw [at_get LL n hn] at h3 ⊢
  have hm : m < LL[n].length := by simp only [len_] at h3; omega
  have e : P LL (n : Int) + (m : Int) = ((PN LL n + m : Nat) : Int) := by simp [P]
  rw [e]
  constructor
  · rw [at_nat, at_get _ m hm, List.getD_eq_getElem?_getD, flat, flat_get LL n m hn hm]
    rfl
  · simp only [seg, Int.toNat_natCast, segN_uniq LL n m hn hm]
theorem flat_at_base : Ax.a_flat_at_base V := flat_at V
theorem flat_seg : Ax.a_flat_seg V := by
  intro LL k h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < LL.flatten.length := by have := h.2; simp only [len_, flat] at this; omega
  obtain ⟨h1, h2, h3, h4⟩ := segN_spec LL n hn
  have es : seg LL (n : Int) = ((segN LL n : Nat) : Int) := rfl
  have eb : at_ LL ((segN LL n : Nat) : Int) = LL.getD (segN LL n) [] := at_nat _ _
  have eP : P LL ((segN LL n : Nat) : Int) = (PN LL (segN LL n) : Int) := rfl
  rw [es, eb, eP]
  have e5 : (n : Int) - (PN LL (segN LL n) : Int) = ((n - PN LL (segN LL n) : Nat) : Int) := by omega
  refine ⟨by omega, by simp only [len_]; omega, by omega, by simp only [len_]; omega, ?_⟩
  rw [e5, at_nat, at_nat, List.getD_eq_getElem?_getD, List.getD_eq_getElem?_getD, flat, h4]
theorem flat_emp : Ax.a_flat_emp V := by show flat [] = []; rfl
theorem flat_cat : Ax.a_flat_cat V := by intro LL MM; simp [flat, cat_]
theorem flat_unit : Ax.a_flat_unit V := by intro s; simp [flat, unit_]
theorem flat_ins : Ax.a_flat_ins V := by
  intro LL p s h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  simp only [flat, ins_, cat_, sl_, P, Int.toNat_natCast, len_, List.flatten_append, List.flatten_cons, List.take_length, Int.toNat_zero, List.drop_zero]
  rw [take_PN, drop_PN]; simp
theorem flat_upd : Ax.a_flat_upd V := by
  intro LL p s h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < LL.length := by have := h.2; simp only [len_] at this; omega
  rw [at_get LL n hn]
  have e : ((PN LL n : Int) + (LL[n].length : Int)).toNat = PN LL (n + 1) := by rw [PN_succ LL n hn]; omega
  simp only [flat, upd_, cat_, sl_, P, Int.toNat_natCast, len_, List.take_length, Int.toNat_zero, List.drop_zero, e]
  rw [take_PN, drop_PN, List.set_eq_take_append_cons_drop, if_pos hn]; simp
theorem flat_rem : Ax.a_flat_rem V := by
  intro LL p h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < LL.length := by have := h.2; simp only [len_] at this; omega
  rw [at_get LL n hn]
  have e : ((PN LL n : Int) + (LL[n].length : Int)).toNat = PN LL (n + 1) := by rw [PN_succ LL n hn]; omega
  simp only [flat, rem_, cat_, sl_, P, Int.toNat_natCast, len_, List.take_length, Int.toNat_zero, List.drop_zero, e]
  rw [take_PN, drop_PN, List.eraseIdx_eq_take_drop_succ]; simp
theorem flat_sl : Ax.a_flat_sl V := by
  intro LL a b h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b by omega)
  have hnm : n ≤ m := by omega
  simp only [flat, sl_, P, Int.toNat_natCast]
  rw [take_PN]
  have : PN LL n = PN (LL.take m) n := by simp [PN, List.take_take, hnm]
  rw [this, drop_PN]
theorem P_upd : Ax.a_P_upd V := by
  intro LL p s i h
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have hn : n < LL.length := by simp only [len_] at h1; omega
  rw [at_get LL n hn]
  simp only [P, Int.toNat_natCast, upd_, PN]
  by_cases c : m ≤ n
  · rw [if_pos (by omega), List.take_set_of_le (by omega)]
  · rw [if_neg (by omega), List.take_set]
    have hm : n < (LL.take m).length := by simp; omega
    have e := congrArg List.length (congrArg List.flatten (List.set_eq_take_append_cons_drop (l := LL.take m) (i := n) (a := s)))
    have e2 := congrArg List.length (congrArg List.flatten (List.set_eq_take_append_cons_drop (l := LL.take m) (i := n) (a := LL[n])))
    have e3 : (LL.take m).set n LL[n] = LL.take m := by
      have : LL[n] = (LL.take m)[n] := by simp
      rw [this, List.set_getElem_self]
    rw [e3] at e2
    rw [if_pos hm] at e e2
    simp only [List.flatten_append, List.flatten_cons, List.length_append] at e e2
    simp only [len_]
    omega
theorem P_ins : Ax.a_P_ins V := by
  intro LL p s i h
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have hn : n ≤ LL.length := by simp only [len_] at h1; omega
  simp only [P, Int.toNat_natCast, ins_, PN]
  by_cases c : m ≤ n
  · rw [if_pos (by omega), List.take_append_of_le_length (by simp; omega), List.take_take, min_eq_left c]
  · rw [if_neg (by omega)]
    obtain ⟨q, rfl⟩ : ∃ q, m = q + 1 := ⟨m - 1, by omega⟩
    have e : (((q + 1 : Nat) : Int) - 1).toNat = q := by omega
    rw [e, List.take_append, List.length_take, min_eq_left hn]
    rw [show q + 1 - n = (q - n) + 1 by omega, List.take_succ_cons]
    have e2 : LL.take q = LL.take n ++ (LL.drop n).take (q - n) := by
      rw [← List.take_add]; congr 1; omega
    rw [List.take_take, min_eq_right (by omega), e2]
    simp [len_]; omega
theorem P_rem : Ax.a_P_rem V := by
  intro LL p i h
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have hn : n < LL.length := by simp only [len_] at h1; omega
  rw [at_get LL n hn]
  simp only [P, Int.toNat_natCast, rem_, PN, List.eraseIdx_eq_take_drop_succ]
  by_cases c : m ≤ n
  · rw [if_pos (by omega), List.take_append_of_le_length (by simp; omega), List.take_take, min_eq_left c]
  · rw [if_neg (by omega)]
    have e : ((m : Int) + 1).toNat = m + 1 := by omega
    rw [e, List.take_append, List.length_take, min_eq_left (by omega)]
    have e2 : LL.take (m + 1) = LL.take (n + 1) ++ (LL.drop (n + 1)).take (m - n) := by
      rw [← List.take_add]; congr 1; omega
    have e4 := PN_succ LL n hn
    simp only [PN] at e4
    rw [List.take_take, min_eq_right (by omega), e2]
    simp only [List.flatten_append, List.length_append, e4, len_]
    omega
theorem revall_len : Ax.a_revall_len V := by intro LL; simp [len_, revall]
theorem revall_at : Ax.a_revall_at V := by
  intro LL i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < LL.length := by have := h.2; simp only [len_] at this; omega
  rw [at_get LL n hn, at_get _ n (by simpa [revall] using hn)]
  simp [revall, rev_]
theorem flat_rev : Ax.a_flat_rev V := by
  intro LL
  simp [flat, revall, rev_, List.reverse_flatten, List.map_reverse]
theorem flatI_emp : Ax.a_flatI_emp V := by show flatI [] = []; rfl
theorem flatI_unit : Ax.a_flatI_unit V := by intro s; simp [flatI, unit_]
theorem flatI_cat : Ax.a_flatI_cat V := by intro LL MM; simp [flatI, cat_]
theorem flatI_rev_snoc : Ax.a_flatI_rev_snoc V := by intro X u; simp [flatI, rev_, cat_, unit_]
theorem flatI_rev_unit : Ax.a_flatI_rev_unit V := by intro u; simp [flatI, rev_, unit_]
theorem flatI_rev_last : Ax.a_flatI_rev_last V := by
  intro X i h
  obtain ⟨h0, h1, h2⟩ := h
  have hp : 0 < X.length := by simp only [len_] at h0; omega
  obtain ⟨Y, u, rfl⟩ : ∃ Y u, X = Y ++ [u] := by
    have hne : X ≠ [] := by intro e; simp [e] at hp
    exact ⟨X.dropLast, X.getLast hne, (List.dropLast_append_getLast hne).symm⟩
  have el : len_ (Y ++ [u]) - 1 = (Y.length : Int) := by simp [len_]
  have ea : at_ (Y ++ [u]) (Y.length : Int) = u := by simp [at_]
  rw [el, ea] at h2 ⊢
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h1
  have hn : n < u.length := by simp only [len_] at h2; omega
  have ef : flatI (rev_ (Y ++ [u])) = u ++ flatI (rev_ Y) := by simp [flatI, rev_]
  rw [ef]
  constructor
  · simp [len_]
  · rw [at_nat, at_nat, List.getD_eq_getElem?_getD, List.getD_eq_getElem?_getD, List.getElem?_append_left hn]

/-! ### ranks -/
theorem mapord_len : Ax.a_mapord_len V := by intro s; simp [len_, mapord]
theorem mapord_at : Ax.a_mapord_at V := fun s i h => mapord_at' s i h.1 h.2
theorem mapord_at2 : Ax.a_mapord_at2 V := mapord_at V
theorem mapord_sorted : Ax.a_mapord_sorted V := by
  intro s
  rw [sortedV_iff, sortedI_iff, mapord, List.pairwise_map]
theorem mapord_bl : Ax.a_mapord_bl V := by
  intro s k
  simp only [blI, bl, mapord, List.length_map, Int.natCast_inj]
  apply bis_congr
  intro m _ h
  rw [at_get s m h, at_get _ m (by simpa using h)]
  simp
theorem mapord_br : Ax.a_mapord_br V := by
  intro s k
  simp only [brI, br, mapord, List.length_map, Int.natCast_inj]
  apply bis_congr
  intro m _ h
  rw [at_get s m h, at_get _ m (by simpa using h)]
  simp
end SC.Pr
