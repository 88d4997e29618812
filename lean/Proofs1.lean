import Statements
set_option linter.all false
open Classical
namespace SC
section generic
variable {α : Type} [Inhabited α]

theorem at_nat (s : List α) (n : Nat) : at_ s (n : Int) = s.getD n default := by
  simp [at_]

theorem at_get (s : List α) (n : Nat) (h : n < s.length) : at_ s (n : Int) = s[n] := by
  simp [at_, h]

theorem g_len_nonneg (s : List α) : len_ s ≥ 0 := by simp [len_]
theorem g_len_emp : len_ ([] : List α) = 0 := by simp [len_]
theorem g_len_zero (s : List α) (h : len_ s = 0) : s = [] := by
  simpa [len_] using h
theorem g_unit (x : α) : len_ (unit_ x) = 1 ∧ at_ (unit_ x) 0 = x := by simp [len_, unit_, at_]
theorem g_cat_len (s t : List α) : len_ (cat_ s t) = len_ s + len_ t := by simp [len_, cat_]

theorem g_cat_at (s t : List α) (i : Int) (h : i ≥ 0 ∧ i < len_ s + len_ t) :
    at_ (cat_ s t) i = if i < len_ s then at_ s i else at_ t (i - len_ s) := by
  obtain ⟨h0, h1⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hl : len_ s = (s.length : Int) := rfl
  by_cases h2 : n < s.length
  · rw [if_pos (by omega), at_nat, at_nat]
    simp [cat_, List.getD_eq_getElem?_getD, List.getElem?_append, h2]
  · have e : (n : Int) - len_ s = ((n - s.length : Nat) : Int) := by omega
    rw [if_neg (by omega), e, at_nat, at_nat]
    simp [cat_, List.getD_eq_getElem?_getD, List.getElem?_append, h2]

theorem g_sl_len (s : List α) (a b : Int) (h : a ≥ 0 ∧ a ≤ b ∧ b ≤ len_ s) : len_ (sl_ s a b) = b - a := by
  simp only [len_, sl_, List.length_drop, List.length_take] at *
  omega

theorem g_sl_at (s : List α) (a b i : Int) (h : a ≥ 0 ∧ a ≤ b ∧ b ≤ len_ s ∧ i ≥ 0 ∧ i < b - a) :
    at_ (sl_ s a b) i = at_ s (a + i) := by
  obtain ⟨h0, h1, h2, h3, h4⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h3
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have : (m : Int) + n = ((m + n : Nat) : Int) := by omega
  rw [this, at_nat, at_nat]
  simp only [len_] at *
  have : m + n < b.toNat := by omega
  simp [sl_, List.getD_eq_getElem?_getD, List.getElem?_take, this]

theorem g_upd_len (s : List α) (i : Int) (x : α) : len_ (upd_ s i x) = len_ s := by simp [len_, upd_]

theorem g_upd_at (s : List α) (i : Int) (x : α) (j : Int) (h : i ≥ 0 ∧ i < len_ s ∧ j ≥ 0 ∧ j < len_ s) :
    at_ (upd_ s i x) j = if i = j then x else at_ s j := by
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  simp only [len_] at *
  have hm : m < s.length := by omega
  rw [at_nat, at_nat]
  by_cases e : n = m
  · subst e; simp [upd_, List.getD_eq_getElem?_getD, hm]
  · simp [upd_, List.getD_eq_getElem?_getD, List.getElem?_set, e]

theorem g_ins_len (s : List α) (i : Int) (x : α) (h : i ≥ 0 ∧ i ≤ len_ s) : len_ (ins_ s i x) = len_ s + 1 := by
  simp only [len_, ins_, List.length_append, List.length_cons, List.length_take, List.length_drop] at *
  omega

theorem g_ins_at (s : List α) (i : Int) (x : α) (j : Int) (h : i ≥ 0 ∧ i ≤ len_ s ∧ j ≥ 0 ∧ j ≤ len_ s) :
    at_ (ins_ s i x) j = if j < i then at_ s j else if j = i then x else at_ s (j - 1) := by
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  simp only [len_] at *
  have hn : n ≤ s.length := by omega
  split
  · have hm : m < n := by omega
    rw [at_nat, at_nat]
    simp [ins_, List.getD_eq_getElem?_getD, List.getElem?_append, List.getElem?_take, hm, hn, show m < s.length by omega]
  · split
    · have hm : m = n := by omega
      subst hm
      rw [at_nat]
      simp [ins_, List.getD_eq_getElem?_getD, List.getElem?_append, hn]
    · obtain ⟨p, rfl⟩ : ∃ p, m = p + 1 := ⟨m - 1, by omega⟩
      have hp : n ≤ p := by omega
      have e : ((p + 1 : Nat) : Int) - 1 = (p : Int) := by omega
      rw [e, at_nat, at_nat]
      have e2 : p + 1 - n = (p - n) + 1 := by omega
      have e3 : n + (p - n) = p := by omega
      simp [ins_, List.getD_eq_getElem?_getD, List.getElem?_append, hn, not_lt.mpr (show n ≤ p + 1 by omega), e2, e3]

theorem g_rem_len (s : List α) (i : Int) (h : i ≥ 0 ∧ i < len_ s) : len_ (rem_ s i) = len_ s - 1 := by
  simp only [len_, rem_] at *
  rw [List.length_eraseIdx_of_lt (by omega)]
  omega

theorem g_rem_at (s : List α) (i j : Int) (h : i ≥ 0 ∧ i < len_ s ∧ j ≥ 0 ∧ j < len_ s - 1) :
    at_ (rem_ s i) j = if j < i then at_ s j else at_ s (j + 1) := by
  obtain ⟨h0, h1, h2, h3⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h2
  have e : (m : Int) + 1 = ((m + 1 : Nat) : Int) := by omega
  rw [e, at_nat, at_nat, at_nat]
  simp only [rem_, Int.toNat_natCast, List.getD_eq_getElem?_getD, List.getElem?_eraseIdx]
  split <;> split <;> first | rfl | omega

theorem g_rev_len (s : List α) : len_ (rev_ s) = len_ s := by simp [len_, rev_]
theorem g_rev_at (s : List α) (i : Int) (h : i ≥ 0 ∧ i < len_ s) : at_ (rev_ s) i = at_ s (len_ s - 1 - i) := by
  obtain ⟨h0, h1⟩ := h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simp only [len_] at *
  have e : (s.length : Int) - 1 - n = ((s.length - 1 - n : Nat) : Int) := by omega
  rw [e, at_nat, at_nat]
  simp [rev_, List.getD_eq_getElem?_getD, List.getElem?_reverse (show n < s.length by omega)]
theorem g_rep_le0 (s : List α) (i : Int) (h : i ≤ 0) : rep_ s i = [] := by
  have : i.toNat = 0 := by omega
  simp [rep_, this]
theorem g_rep_len (s : List α) (i : Int) (h : i > 0) : len_ (rep_ s i) = len_ s * i := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (le_of_lt h)
  simp [len_, rep_, mul_comm]

theorem ext_at {s t : List α} (hl : len_ s = len_ t) (h : ∀ i, i ≥ 0 → i < len_ s → at_ s i = at_ t i) : s = t := by
  simp only [len_] at *
  have hl' : s.length = t.length := by omega
  apply List.ext_getElem hl'
  intro n h1 h2
  have := h n (by omega) (by omega)
  rwa [at_get s n h1, at_get t n h2] at this

/-- index facts about the sequence operations -/
macro "seqsolve" : tactic => `(tactic| (
  repeat' (first
    | rw [g_cat_len] | rw [g_upd_len] | rw [g_rev_len]
    | rw [g_sl_len _ _ _ (by omega)] | rw [g_ins_len _ _ _ (by omega)] | rw [g_rem_len _ _ (by omega)])))
end generic
end SC
