import Proofs6
set_option linter.all false
open Classical
namespace SC.Pr
variable (V : Type) [Ctx V]

/-! ### sets -/
theorem mem_emp : Ax.a_mem_emp V := by intro v; simp [mem]
theorem mem_setof : Ax.a_mem_setof V := by
  intro s v h
  simp only [mem, setof, List.mem_toFinset] at h
  have hl := List.idxOf_lt_length_of_mem h
  refine ⟨by simp [hi], by simp only [hi, len_]; omega, ?_⟩
  simp only [hi]
  rw [at_get s _ hl, List.getElem_idxOf]
theorem at_mem {s : List V} {i : Int} (h0 : i ≥ 0) (h1 : i < len_ s) : at_ s i ∈ s := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hn : n < s.length := by simp only [len_] at h1; omega
  rw [at_get s n hn]; exact List.getElem_mem hn
theorem mem_at : Ax.a_mem_at V := by
  intro s i h
  simp only [mem, setof, List.mem_toFinset]
  exact at_mem V h.1 h.2
theorem mem_union : Ax.a_mem_union V := by intro S T v; simp [mem, sunion]
theorem mem_inter : Ax.a_mem_inter V := by intro S T v; simp [mem, sinter]
theorem mem_diff : Ax.a_mem_diff V := by intro S T v; simp [mem, sdiff]
theorem mem_sym : Ax.a_mem_sym V := by
  intro S T v
  simp only [mem, ssym, Finset.mem_symmDiff]
  tauto
theorem mem_add : Ax.a_mem_add V := by intro S w v; simp [mem, sadd]
theorem mem_del : Ax.a_mem_del V := by intro S w v; simp [mem, sdel]
theorem setof_emp : Ax.a_setof_emp V := by show setof [] = ∅; simp [setof]
theorem setof_unit : Ax.a_setof_unit V := by intro v; simp [setof, unit_, sadd]
theorem setof_cat : Ax.a_setof_cat V := by intro s t; simp [setof, cat_, sunion]
theorem ins_perm (s : List V) (i : Int) (v : V) : (ins_ s i v).Perm (v :: s) := by
  have := (List.perm_middle (a := v) (l₁ := s.take i.toNat) (l₂ := s.drop i.toNat))
  rwa [List.take_append_drop] at this
theorem rem_perm (s : List V) (i : Int) (h : i ≥ 0 ∧ i < len_ s) : s.Perm (at_ s i :: rem_ s i) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < s.length := by have := h.2; simp only [len_] at this; omega
  rw [at_get s n hn, rem_, Int.toNat_natCast]
  exact (List.getElem_cons_eraseIdx_perm hn).symm
theorem setof_perm {s t : List V} (h : s.Perm t) : setof s = setof t := by
  ext x; simp only [setof, List.mem_toFinset]; exact h.mem_iff
theorem setof_ins : Ax.a_setof_ins V := by
  intro s i v h
  rw [setof_perm V (ins_perm V s i v)]; simp [setof, sadd]
theorem setof_rem : Ax.a_setof_rem V := by
  intro s i h
  have hp := rem_perm V s i h.2
  have hd : (at_ s i :: rem_ s i).Nodup := hp.nodup_iff.1 h.1
  rw [setof_perm V hp]
  have hn := (List.nodup_cons.1 hd).1
  ext x
  simp only [setof, sdel, Finset.mem_erase, List.mem_toFinset, List.mem_cons]
  constructor
  · intro hx
    exact ⟨fun e => hn (e ▸ hx), Or.inr hx⟩
  · rintro ⟨h1, h2 | h2⟩
    · exact absurd h2 h1
    · exact h2

/-! ### multiplicities -/
theorem occ_perm {s t : List V} (h : s.Perm t) (v : V) : occ s v = occ t v := by
  simp only [occ]; exact_mod_cast h.count_eq v
theorem occ_cons (x v : V) (s : List V) : occ (x :: s) v = occ s v + if x = v then 1 else 0 := by
  simp only [occ, List.count_cons]
  by_cases e : x = v <;> simp [e]
theorem occ_emp : Ax.a_occ_emp V := by intro v; show occ [] v = 0; simp [occ]
theorem occ_unit : Ax.a_occ_unit V := by
  intro v w
  rw [unit_, occ_cons]; simp [occ]
theorem occ_cat : Ax.a_occ_cat V := by intro s t v; simp [occ, cat_]
theorem occ_ssort : Ax.a_occ_ssort V := fun s v => occ_perm V (ssort_perm s) v
theorem occ_rev : Ax.a_occ_rev V := by intro s v; simp [occ, rev_]
theorem occ_ins : Ax.a_occ_ins V := by
  intro s i w v h
  rw [occ_perm V (ins_perm V s i w), occ_cons]
theorem occ_rem : Ax.a_occ_rem V := by
  intro s i v h
  have := occ_perm V (rem_perm V s i h) v
  rw [occ_cons] at this
  omega
theorem upd_perm (s : List V) (i : Int) (w : V) (h : i ≥ 0 ∧ i < len_ s) : (upd_ s i w).Perm (w :: rem_ s i) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < s.length := by have := h.2; simp only [len_] at this; omega
  rw [upd_, rem_, Int.toNat_natCast, List.set_eq_take_append_cons_drop, if_pos hn, List.eraseIdx_eq_take_drop_succ]
  exact List.perm_middle
theorem occ_upd : Ax.a_occ_upd V := by
  intro s i w v h
  rw [occ_perm V (upd_perm V s i w h), occ_cons, occ_rem V s i v h]
theorem occ_sl : Ax.a_occ_sl V := by
  intro s i j v h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ j by omega)
  have hnm : n ≤ m := by omega
  have e : s.take n = (s.take m).take n := by simp [List.take_take, hnm]
  have := occ_cat V ((s.take m).take n) ((s.take m).drop n) v
  rw [cat_, List.take_append_drop] at this
  simp only [sl_, Int.toNat_natCast, Int.toNat_zero, List.drop_zero]
  rw [this, ← e]

theorem setof_ssort : Ax.a_setof_ssort V := fun s => setof_perm V (ssort_perm s)
theorem setof_rev : Ax.a_setof_rev V := by intro s; simp [setof, rev_]
theorem setof_snoc : Ax.a_setof_snoc V := by
  intro s i j h
  obtain ⟨h0, h1, rfl⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hn : n < s.length := by simp only [len_] at h1; omega
  rw [sl_succ V s n hn]
  ext x; simp [setof, sadd, or_comm]
theorem distinct_elim : Ax.a_distinct_elim V := by
  intro s i j h
  obtain ⟨hd, h0, h1, h2, h3, h4⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have hn : n < s.length := by simp only [len_] at h1; omega
  have hm : m < s.length := by simp only [len_] at h3; omega
  rw [at_get s n hn, at_get s m hm] at h4
  have := (List.Nodup.getElem_inj_iff hd).1 h4
  omega
theorem distinct_emp : Ax.a_distinct_emp V := by show distinct []; simp [distinct]
theorem distinct_unit : Ax.a_distinct_unit V := by intro v; simp [distinct, unit_]
theorem distinct_ins : Ax.a_distinct_ins V := by
  intro s i v h
  obtain ⟨hd, h0, h1, hm⟩ := h
  rw [distinct, (ins_perm V s i v).nodup_iff, List.nodup_cons]
  exact ⟨by simpa [mem, setof] using hm, hd⟩
theorem distinct_rem : Ax.a_distinct_rem V := by
  intro s i h
  exact h.1.sublist (List.eraseIdx_sublist _ _)
theorem distinct_sl : Ax.a_distinct_sl V := by
  intro s i j h
  exact (h.1.sublist (List.take_sublist _ _)).sublist (List.drop_sublist _ _)
theorem distinct_ssort : Ax.a_distinct_ssort V := fun s => (ssort_perm s).nodup_iff
theorem seqof : Ax.a_seqof V := by
  intro S
  refine ⟨Finset.nodup_toList S, by simp [setof, SC.seqof], by simp [len_, SC.seqof, card]⟩
theorem card_setof : Ax.a_card_setof V := by
  intro s h
  simp only [card, setof, len_]
  exact_mod_cast List.toFinset_card_of_nodup h
theorem card_nonneg : Ax.a_card_nonneg V := by
  intro S; simp [card]

/-! ### maps -/
theorem dom_emp : Ax.a_dom_emp V := rfl
theorem dom_put : Ax.a_dom_put V := by intro D w x; simp [dom, mput, sadd, val]
theorem val_put : Ax.a_val_put V := fun D w x v => rfl
theorem dom_del : Ax.a_dom_del V := fun D w => rfl
theorem val_del : Ax.a_val_del V := fun D w v h => rfl
theorem dom_merge : Ax.a_dom_merge V := fun D E => rfl
theorem val_merge : Ax.a_val_merge V := by
  intro D E v
  simp only [val, mmerge, mem, dom]
  by_cases h : v ∈ E.d <;> simp [h]
theorem mvals_len : Ax.a_mvals_len V := by intro D ks; simp [len_, mvals]
theorem mvals_at : Ax.a_mvals_at V := by
  intro D ks i h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  have hn : n < ks.length := by have := h.2; simp only [len_] at this; omega
  rw [at_get ks n hn, at_get _ n (by simpa [mvals] using hn)]
  simp [mvals, val]
theorem foldl_mput (l : List (V × V)) (D : Mp V) :
    l.foldl (fun D p => mput D p.1 p.2) D = mmerge D (l.foldl (fun D p => mput D p.1 p.2) memp) := by
  induction l using List.reverseRecOn with
  | nil => simp [mmerge, memp]
  | append_singleton l p ih =>
    simp only [List.foldl_append, List.foldl_cons, List.foldl_nil, ih]
    generalize List.foldl (fun D p => mput D p.1 p.2) memp l = E
    simp only [mmerge, mput, Mp.mk.injEq]
    refine ⟨by ext x; simp, ?_⟩
    funext v
    by_cases e : v = p.1 <;> simp [e]
theorem pairs_cat : Ax.a_pairs_cat V := by
  intro s t ks vs h
  have hl : s.length = t.length := by simp only [len_] at h; omega
  simp only [mpairs, cat_, List.zip_append hl, List.foldl_append]
  rw [foldl_mput]
theorem dom_mpairs (l : List (V × V)) : (l.foldl (fun D p => mput D p.1 p.2) (memp : Mp V)).d = (l.map Prod.fst).toFinset := by
  induction l using List.reverseRecOn with
  | nil => simp [memp]
  | append_singleton l p ih =>
    simp only [List.foldl_append, List.foldl_cons, List.foldl_nil]
    show insert p.1 (List.foldl (fun D p => mput D p.1 p.2) memp l).d = _
    rw [ih]
    ext x; simp
theorem dom_pairs : Ax.a_dom_pairs V := by
  intro ks vs h
  have hl : ks.length = vs.length := by simp only [len_] at h; omega
  simp only [dom, mpairs, dom_mpairs, setof]
  rw [List.map_fst_zip (by omega)]
theorem val_mpairs (l : List (V × V)) (g : V → V) (h : ∀ p ∈ l, p.2 = g p.1) (v : V) (hv : v ∈ l.map Prod.fst) :
    (l.foldl (fun D p => mput D p.1 p.2) (memp : Mp V)).f v = g v := by
  induction l using List.reverseRecOn with
  | nil => simp at hv
  | append_singleton l p ih =>
    simp only [List.foldl_append, List.foldl_cons, List.foldl_nil, mput]
    by_cases e : v = p.1
    · rw [if_pos e, e]; exact h p (by simp)
    · rw [if_neg e]
      apply ih (fun q hq => h q (by simp [hq]))
      simp only [List.map_append, List.mem_append, List.map_cons, List.map_nil, List.mem_singleton] at hv
      exact hv.resolve_right e
theorem val_pairs_vals : Ax.a_val_pairs_vals V := by
  intro D ks v h
  simp only [mem, setof, List.mem_toFinset] at h
  apply val_mpairs V _ D.f
  · intro p hp
    simp only [mvals, List.zip_map_right, List.mem_map] at hp
    obtain ⟨q, hq, rfl⟩ := hp
    have hd : ∀ (l : List V) (q : V × V), q ∈ l.zip l → q.2 = q.1 := by
      intro l
      induction l with
      | nil => simp
      | cons a l ih => intro q hq; simp at hq; rcases hq with rfl | hq; · rfl
                       · exact ih q hq
    have := hd ks q hq
    simp [this]
  · rw [List.map_fst_zip (by simp [mvals])]; exact h
theorem dom_minus : Ax.a_dom_minus V := fun D S => rfl
theorem val_minus : Ax.a_val_minus V := fun D S v h => rfl
theorem konst : Ax.a_konst V := by intro x i h; simp only [len_, SC.konst, List.length_replicate]; omega
theorem konst_at : Ax.a_konst_at V := by
  intro x i j h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  rw [at_get _ n (by simp only [SC.konst, List.length_replicate]; omega)]
  simp [SC.konst]
theorem val_konst : Ax.a_val_konst V := by
  intro ks x v h
  simp only [mem, setof, List.mem_toFinset] at h
  apply val_mpairs V _ (fun _ => x)
  · intro p hp
    have := (List.of_mem_zip hp).2
    exact List.eq_of_mem_replicate this
  · rw [List.map_fst_zip (by simp [SC.konst, len_])]; exact h
theorem dom_restr : Ax.a_dom_restr V := fun D S => rfl
theorem val_restr : Ax.a_val_restr V := fun D S v h => rfl

/-! ### subset, duplicates -/
theorem subset_elim : Ax.a_subset_elim V := fun S T v h => h.1 h.2
theorem subset_intro : Ax.a_subset_intro V := by
  intro S T
  by_cases h : ∃ v, v ∈ S ∧ v ∉ T
  · right
    simp only [mem, sub_w, dif_pos h]
    exact h.choose_spec
  · left
    intro v hv
    by_contra hc
    exact h ⟨v, hv, hc⟩
theorem subset_ext : Ax.a_subset_ext V := fun S T h => Finset.Subset.antisymm h.1 h.2
theorem distinct_intro : Ax.a_distinct_intro V := by
  intro s
  by_cases h : ∃ p : Int × Int, 0 ≤ p.1 ∧ p.1 < p.2 ∧ p.2 < len_ s ∧ at_ s p.1 = at_ s p.2
  · right
    simp only [dw1, dw2, dwp, dif_pos h]
    exact h.choose_spec
  · left
    rw [distinct, List.nodup_iff_pairwise_ne, List.pairwise_iff_getElem]
    intro i j hi hj hij e
    apply h
    refine ⟨((i : Int), (j : Int)), by simp, by simpa using hij, by simp only [len_]; omega, ?_⟩
    rw [at_get s i hi, at_get s j hj]; exact e
theorem mem_sl : Ax.a_mem_sl V := by
  intro s a b v h
  obtain ⟨hd, h0, h1, h2⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ b by omega)
  simp only [mem, setof, List.mem_toFinset, sl_, Int.toNat_natCast, hi]
  simp only [len_] at h2
  constructor
  · intro hv
    obtain ⟨q, hq, e⟩ := List.getElem_of_mem hv
    simp only [List.length_drop, List.length_take] at hq
    rw [List.getElem_drop, List.getElem_take] at e
    have hx : List.idxOf v s = n + q := by
      rw [← e]; exact List.Nodup.idxOf_getElem hd _ _
    refine ⟨?_, by omega, by omega⟩
    rw [← e]; exact List.getElem_mem _
  · rintro ⟨h3, h4, h5⟩
    have hl := List.idxOf_lt_length_of_mem h3
    have e := List.getElem_idxOf (x := v) (xs := s) hl
    rw [List.mem_iff_getElem]
    refine ⟨List.idxOf v s - n, by simp only [List.length_drop, List.length_take]; omega, ?_⟩
    rw [List.getElem_drop, List.getElem_take]
    have e2 : n + (List.idxOf v s - n) = List.idxOf v s := by omega
    simp only [e2, e]
end SC.Pr
