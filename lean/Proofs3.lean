import Proofs2
set_option linter.all false
open Classical
namespace SC
variable {V : Type} [Ctx V]

abbrev SP (s : List V) : Prop := s.Pairwise (fun a b => ord a ≤ ord b)

theorem insR_perm (v : V) (l : List V) : (insR v l).Perm (v :: l) := by
  induction l with
  | nil => simp [insR]
  | cons x xs ih =>
    simp only [insR]
    split
    · exact List.Perm.refl _
    · exact (List.Perm.cons x ih).trans (List.Perm.swap v x xs)

theorem insR_sorted (v : V) (l : List V) (h : SP l) : SP (insR v l) := by
  induction l with
  | nil => simp [insR, SP]
  | cons x xs ih =>
    simp only [insR]
    have hx := List.pairwise_cons.1 h
    split
    · rename_i hlt
      refine List.pairwise_cons.2 ⟨fun y hy => ?_, h⟩
      rcases List.mem_cons.1 hy with rfl | hy
      · omega
      · have := hx.1 y hy; omega
    · rename_i hge
      refine List.pairwise_cons.2 ⟨fun y hy => ?_, ih hx.2⟩
      rcases List.mem_cons.1 ((insR_perm v xs).mem_iff.1 hy) with rfl | hy
      · omega
      · exact hx.1 y hy

theorem insR_filter (v : V) (l : List V) (h : SP l) (k : Int) :
    (insR v l).filter (fun x => decide (ord x = k)) = l.filter (fun x => decide (ord x = k)) ++ [v].filter (fun x => decide (ord x = k)) := by
  induction l with
  | nil => simp [insR]
  | cons x xs ih =>
    have hx := List.pairwise_cons.1 h
    simp only [insR]
    split
    · rename_i hlt
      by_cases hv : ord v = k
      · have hnone : (x :: xs).filter (fun x => decide (ord x = k)) = [] := by
          rw [List.filter_eq_nil_iff]
          intro y hy
          have : ord x ≤ ord y := by
            rcases List.mem_cons.1 hy with rfl | hy
            · exact le_refl _
            · exact hx.1 y hy
          simp; omega
        rw [hnone, List.filter_cons, if_pos (by simpa using hv), hnone]
        simp [hv]
      · simp [List.filter_cons, hv]
    · rw [List.filter_cons, ih hx.2]
      by_cases hk : ord x = k <;> simp [List.filter_cons, hk]

/-- a sorted list is determined by its elements of each rank, in order -/
theorem canon (l m : List V) (hl : SP l) (hm : SP m)
    (h : ∀ k : Int, l.filter (fun x => decide (ord x = k)) = m.filter (fun x => decide (ord x = k))) : l = m := by
  induction l generalizing m with
  | nil =>
    cases m with
    | nil => rfl
    | cons y ys => have := h (ord y); simp at this
  | cons x xs ih =>
    cases m with
    | nil => have := h (ord x); simp at this
    | cons y ys =>
      have hx := List.pairwise_cons.1 hl
      have hy := List.pairwise_cons.1 hm
      have e : ord x = ord y := by
        have hxm : x ∈ y :: ys := by
          have hmem : x ∈ (x :: xs).filter (fun z => decide (ord z = ord x)) := by simp
          rw [h (ord x)] at hmem
          exact (List.mem_filter.1 hmem).1
        have hyl : y ∈ x :: xs := by
          have hmem : y ∈ (y :: ys).filter (fun z => decide (ord z = ord y)) := by simp
          rw [← h (ord y)] at hmem
          exact (List.mem_filter.1 hmem).1
        have h1 : ord y ≤ ord x := by
          rcases List.mem_cons.1 hxm with rfl | hh
          · exact le_refl _
          · exact hy.1 x hh
        have h2 : ord x ≤ ord y := by
          rcases List.mem_cons.1 hyl with rfl | hh
          · exact le_refl _
          · exact hx.1 y hh
        omega
      have exy : x = y := by
        have := h (ord x)
        simp [List.filter_cons, e] at this
        exact this.1
      subst exy
      congr 1
      apply ih ys hx.2 hy.2
      intro k
      have := h k
      by_cases hk : ord x = k
      · simpa [List.filter_cons, hk] using this
      · simpa [List.filter_cons, hk] using this

theorem foldl_insR (s acc : List V) (ha : SP acc) :
    SP (s.foldl (fun a v => insR v a) acc) ∧ (s.foldl (fun a v => insR v a) acc).Perm (acc ++ s) ∧
    ∀ k : Int, (s.foldl (fun a v => insR v a) acc).filter (fun x => decide (ord x = k)) = (acc ++ s).filter (fun x => decide (ord x = k)) := by
  induction s generalizing acc with
  | nil => simp [ha]
  | cons v s ih =>
    simp only [List.foldl_cons]
    obtain ⟨h1, h2, h3⟩ := ih (insR v acc) (insR_sorted v acc ha)
    refine ⟨h1, ?_, ?_⟩
    · refine h2.trans ?_
      refine ((insR_perm v acc).append_right s).trans ?_
      simpa using (List.perm_middle (a := v) (l₁ := acc) (l₂ := s)).symm
    · intro k
      rw [h3 k, List.filter_append, insR_filter v acc ha, List.filter_append]
      by_cases hv : ord v = k <;> simp [List.filter_cons, hv]

theorem ssort_SP (s : List V) : SP (ssort s) := (foldl_insR s [] List.Pairwise.nil).1
theorem ssort_perm (s : List V) : (ssort s).Perm s := by simpa [ssort] using (foldl_insR s [] List.Pairwise.nil).2.1
theorem ssort_filter (s : List V) (k : Int) :
    (ssort s).filter (fun x => decide (ord x = k)) = s.filter (fun x => decide (ord x = k)) := by
  simpa [ssort] using (foldl_insR s [] List.Pairwise.nil).2.2 k
theorem ssort_of_SP (s : List V) (h : SP s) : ssort s = s :=
  canon _ _ (ssort_SP s) h (ssort_filter s)
theorem ssort_congr (s t : List V) (h : ∀ k : Int, s.filter (fun x => decide (ord x = k)) = t.filter (fun x => decide (ord x = k))) :
    ssort s = ssort t :=
  canon _ _ (ssort_SP s) (ssort_SP t) (fun k => by rw [ssort_filter, ssort_filter, h k])
theorem ssort_snoc' (s : List V) (v : V) : ssort (s ++ [v]) = insR v (ssort s) := by
  simp [ssort, List.foldl_append]

theorem insR_pos (v : V) (l : List V) (n : Nat) (hn : n ≤ l.length)
    (h1 : ∀ i (h : i < l.length), i < n → ord l[i] ≤ ord v) (h2 : ∀ i (h : i < l.length), n ≤ i → ord v < ord l[i]) :
    insR v l = l.take n ++ v :: l.drop n := by
  induction l generalizing n with
  | nil => simp [insR]
  | cons x xs ih =>
    cases n with
    | zero =>
      have := h2 0 (by simp) (by omega)
      simp at this
      simp [insR, this]
    | succ n =>
      have := h1 0 (by simp) (by omega)
      simp at this
      simp only [insR]
      rw [if_neg (by omega), ih n (by simpa using hn)
        (fun i h hi => by have := h1 (i + 1) (by simpa using h) (by omega); rwa [List.getElem_cons_succ] at this)
        (fun i h hi => by have := h2 (i + 1) (by simpa using h) (by omega); rwa [List.getElem_cons_succ] at this)]
      simp

theorem insR_br (v : V) (l : List V) (h : SP l) : insR v l = ins_ l (br l (ord v)) v := by
  have hs := (sortedV_iff l).2 h
  have hb := br_spec l (ord v) hs
  have hr := br_rng l (ord v)
  simp only [ins_]
  generalize hg : br l (ord v) = q at *
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hr.1
  simp only [len_, Int.toNat_natCast] at *
  apply insR_pos
  · omega
  · intro i hi hlt
    have := hb.1 i (by omega) (by omega)
    rwa [at_get l i hi] at this
  · intro i hi hle
    have := hb.2 i (by omega) (by omega)
    rwa [at_get l i hi] at this

/-! ### searching -/
theorem firstN_spec (v : V) (s : List V) : firstN v s ≤ s.length ∧
    (∀ h : firstN v s < s.length, eqc s[firstN v s] = eqc v) ∧
    (∀ i (h : i < s.length), i < firstN v s → ¬ eqc s[i] = eqc v) := by
  induction s with
  | nil => simp [firstN]
  | cons x xs ih =>
    simp only [firstN]
    split
    · rename_i h; simp [h]
    · rename_i h
      refine ⟨by simp [ih.1], fun hh => by simpa using ih.2.1 (by simpa using hh), fun i hi hlt => ?_⟩
      cases i with
      | zero => simpa using h
      | succ i => simpa using ih.2.2 i (by simpa using hi) (by omega)

theorem fdiffN_spec (s t : List V) : fdiffN s t ≤ s.length ∧ fdiffN s t ≤ t.length ∧
    (fdiffN s t = s.length ∨ fdiffN s t = t.length ∨ ¬ eqc (s.getD (fdiffN s t) default) = eqc (t.getD (fdiffN s t) default)) ∧
    (∀ i, i < fdiffN s t → eqc (s.getD i default) = eqc (t.getD i default)) := by
  induction s generalizing t with
  | nil => simp [fdiffN]
  | cons x xs ih =>
    cases t with
    | nil => simp [fdiffN]
    | cons y ys =>
      simp only [fdiffN]
      split
      · rename_i h
        obtain ⟨h1, h2, h3, h4⟩ := ih ys
        refine ⟨by simpa using h1, by simpa using h2, by simpa using h3, fun i hi => ?_⟩
        cases i with
        | zero => simpa using h
        | succ i => simpa using h4 i (by omega)
      · rename_i h; simp [h]

theorem cnt_succ (s : List V) (v : V) (n : Nat) (h : n < s.length) :
    cnt s v ((n + 1 : Nat) : Int) = cnt s v (n : Int) + if eqc s[n] = eqc v then 1 else 0 := by
  simp only [cnt, Int.toNat_natCast, List.take_add_one, List.countP_append, List.getElem?_eq_getElem h]
  by_cases e : eqc s[n] = eqc v <;> simp [e]

theorem cnt_const (s : List V) (v : V) (a b : Nat) (hab : a ≤ b) (hb : b ≤ s.length)
    (h : ∀ i (hi : i < s.length), a ≤ i → i < b → ¬ eqc s[i] = eqc v) : cnt s v (b : Int) = cnt s v (a : Int) := by
  induction b with
  | zero => have : a = 0 := by omega
            subst this; rfl
  | succ b ih =>
    by_cases e : a = b + 1
    · subst e; rfl
    · rw [cnt_succ s v b (by omega), if_neg (h b (by omega) (by omega) (by omega)),
        ih (by omega) (by omega) (fun i hi h1 h2 => h i hi h1 (by omega))]
      simp

theorem cnt_full (s : List V) (v : V) (a b : Nat) (hab : a ≤ b) (hb : b ≤ s.length)
    (h : ∀ i (hi : i < s.length), a ≤ i → i < b → eqc s[i] = eqc v) : cnt s v (b : Int) = cnt s v (a : Int) + (b - a) := by
  induction b with
  | zero => have : a = 0 := by omega
            subst this; simp
  | succ b ih =>
    by_cases e : a = b + 1
    · subst e; simp
    · rw [cnt_succ s v b (by omega), if_pos (h b (by omega) (by omega) (by omega)),
        ih (by omega) (by omega) (fun i hi h1 h2 => h i hi h1 (by omega))]
      push_cast; ring

/-! ### chunks -/
theorem chunksN_spec (m : Nat) (hm : 1 ≤ m) (f : Nat) (s : List V) (hf : s.length ≤ f) :
    (chunksN m f s).flatten = s ∧ ((chunksN m f s).length = 0 ↔ s.length = 0) ∧
    ∀ i (h : i < (chunksN m f s).length), 1 ≤ (chunksN m f s)[i].length ∧ (chunksN m f s)[i].length ≤ m ∧
      (i + 1 < (chunksN m f s).length → (chunksN m f s)[i].length = m) := by
  induction f generalizing s with
  | zero => have : s = [] := by simpa using hf
            subst this; simp [chunksN]
  | succ f ih =>
    simp only [chunksN]
    split
    · rename_i h; subst h; simp
    · rename_i h
      have hpos : 0 < s.length := by rcases s with _ | ⟨a, t⟩ <;> simp at *
      obtain ⟨h1, h2, h3⟩ := ih (s.drop m) (by simp; omega)
      refine ⟨by simp [h1], by simp; omega, ?_⟩
      intro i hi
      cases i with
      | zero =>
        simp
        refine ⟨by omega, fun hl => ?_⟩
        by_contra hc
        have : (s.drop m).length = 0 := by simp; omega
        rw [← h2] at this
        omega
      | succ i =>
        rw [List.length_cons] at hi
        have := h3 i (by omega)
        rw [List.getElem_cons_succ]
        exact ⟨this.1, this.2.1, fun hl => this.2.2 (by rw [List.length_cons] at hl; omega)⟩
end SC
