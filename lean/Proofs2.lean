import Proofs1
set_option linter.all false
open Classical
namespace SC

theorem bis_range (f : Nat → Prop) [DecidablePred f] (lo hi : Nat) (h : lo ≤ hi) :
    lo ≤ bis f lo hi ∧ bis f lo hi ≤ hi := by
  fun_induction bis f lo hi with
  | case1 lo hi hlt mid hf ih => have := ih (by omega); omega
  | case2 lo hi hlt mid hf ih => have := ih (by omega); omega
  | case3 => omega

theorem bis_spec (f : Nat → Prop) [DecidablePred f] (lo hi : Nat) (h : lo ≤ hi)
    (mono : ∀ a b, lo ≤ a → a ≤ b → b < hi → f b → f a) :
    (∀ m, lo ≤ m → m < bis f lo hi → f m) ∧ (∀ m, bis f lo hi ≤ m → m < hi → ¬ f m) := by
  fun_induction bis f lo hi with
  | case1 lo hi hlt mid hf ih =>
    have ih := ih (by omega) (fun a b h1 h2 h3 => mono a b (by omega) h2 h3)
    refine ⟨fun m h1 h2 => ?_, ih.2⟩
    by_cases hm : mid + 1 ≤ m
    · exact ih.1 m hm h2
    · exact mono m mid h1 (by omega) (by omega) hf
  | case2 lo hi hlt mid hf ih =>
    have ih := ih (by omega) (fun a b h1 h2 h3 => mono a b h1 h2 (by omega))
    refine ⟨ih.1, fun m h1 h2 hm => ?_⟩
    by_cases hmm : m < mid
    · exact ih.2 m h1 hmm hm
    · have := bis_range f lo mid (by omega)
      exact hf (mono mid m (by omega) (by omega) h2 hm)
  | case3 lo hi hlt => exact ⟨fun m h1 h2 => by omega, fun m h1 h2 => by omega⟩

theorem bis_congr (f g : Nat → Prop) [DecidablePred f] [DecidablePred g] (lo hi : Nat)
    (h : ∀ m, lo ≤ m → m < hi → (f m ↔ g m)) : bis f lo hi = bis g lo hi := by
  fun_induction bis f lo hi with
  | case1 lo hi hlt mid hf ih =>
    rw [bis.eq_def g, dif_pos hlt]
    have : g mid := (h mid (by omega) (by omega)).1 hf
    simp only [show (lo + hi) / 2 = mid from rfl, this, if_true]
    exact ih (fun m h1 h2 => h m (by omega) h2)
  | case2 lo hi hlt mid hf ih =>
    rw [bis.eq_def g, dif_pos hlt]
    have : ¬ g mid := fun hg => hf ((h mid (by omega) (by omega)).2 hg)
    simp only [show (lo + hi) / 2 = mid from rfl, this, if_false]
    exact ih (fun m h1 h2 => h m h1 (by omega))
  | case3 lo hi hlt => rw [bis.eq_def g, dif_neg hlt]

variable {V : Type} [Ctx V]

theorem bl_spec (s : List V) (k : Int) (hs : sortedV s) :
    (∀ i, 0 ≤ i → i < bl s k → ord (at_ s i) < k) ∧ (∀ i, bl s k ≤ i → i < len_ s → k ≤ ord (at_ s i)) := by
  have hr := bis_range (fun m => ord (at_ s m) < k) 0 s.length (by omega)
  have h := bis_spec (fun m => ord (at_ s m) < k) 0 s.length (by omega)
    (fun a b _ h2 h3 h4 => lt_of_le_of_lt (hs a b (by omega) (by omega) (by simp only [len_]; omega)) h4)
  constructor
  · intro i h0 h1
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    exact h.1 n (by omega) (by simp only [bl] at h1; omega)
  · intro i h0 h1
    simp only [bl, len_] at *
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    exact not_lt.1 (h.2 n (by omega) (by omega))

theorem br_spec (s : List V) (k : Int) (hs : sortedV s) :
    (∀ i, 0 ≤ i → i < br s k → ord (at_ s i) ≤ k) ∧ (∀ i, br s k ≤ i → i < len_ s → k < ord (at_ s i)) := by
  have hr := bis_range (fun m => ¬ k < ord (at_ s m)) 0 s.length (by omega)
  have h := bis_spec (fun m => ¬ k < ord (at_ s m)) 0 s.length (by omega)
    (fun a b _ h2 h3 h4 => by
      have := hs a b (by omega) (by omega) (by simp only [len_]; omega)
      simp only [not_lt] at *
      omega)
  constructor
  · intro i h0 h1
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    exact not_lt.1 (h.1 n (by omega) (by simp only [br] at h1; omega))
  · intro i h0 h1
    simp only [br, len_] at *
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    exact not_not.1 (h.2 n (by omega) (by omega))

theorem blI_spec (s : List Int) (k : Int) (hs : sortedI s) :
    (∀ i, 0 ≤ i → i < blI s k → (at_ s i) < k) ∧ (∀ i, blI s k ≤ i → i < len_ s → k ≤ (at_ s i)) := by
  have hr := bis_range (fun m => (at_ s m) < k) 0 s.length (by omega)
  have h := bis_spec (fun m => (at_ s m) < k) 0 s.length (by omega)
    (fun a b _ h2 h3 h4 => lt_of_le_of_lt (hs a b (by omega) (by omega) (by simp only [len_]; omega)) h4)
  constructor
  · intro i h0 h1
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    exact h.1 n (by omega) (by simp only [blI] at h1; omega)
  · intro i h0 h1
    simp only [blI, len_] at *
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    exact not_lt.1 (h.2 n (by omega) (by omega))

theorem brI_spec (s : List Int) (k : Int) (hs : sortedI s) :
    (∀ i, 0 ≤ i → i < brI s k → (at_ s i) ≤ k) ∧ (∀ i, brI s k ≤ i → i < len_ s → k < (at_ s i)) := by
  have hr := bis_range (fun m => ¬ k < (at_ s m)) 0 s.length (by omega)
  have h := bis_spec (fun m => ¬ k < (at_ s m)) 0 s.length (by omega)
    (fun a b _ h2 h3 h4 => by
      have := hs a b (by omega) (by omega) (by simp only [len_]; omega)
      simp only [not_lt] at *
      omega)
  constructor
  · intro i h0 h1
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    exact not_lt.1 (h.1 n (by omega) (by simp only [brI] at h1; omega))
  · intro i h0 h1
    simp only [brI, len_] at *
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    exact not_not.1 (h.2 n (by omega) (by omega))

theorem bl_rng (s : List V) (k : Int) : 0 ≤ bl s k ∧ bl s k ≤ len_ s := by
  have hr := bis_range (fun m => ord (at_ s m) < k) 0 s.length (by omega)
  simp only [bl, len_]; omega
theorem br_rng (s : List V) (k : Int) : 0 ≤ br s k ∧ br s k ≤ len_ s := by
  have hr := bis_range (fun m => ¬ k < ord (at_ s m)) 0 s.length (by omega)
  simp only [br, len_]; omega
theorem blI_rng (s : List Int) (k : Int) : 0 ≤ blI s k ∧ blI s k ≤ len_ s := by
  have hr := bis_range (fun m => (at_ s m) < k) 0 s.length (by omega)
  simp only [blI, len_]; omega
theorem brI_rng (s : List Int) (k : Int) : 0 ≤ brI s k ∧ brI s k ≤ len_ s := by
  have hr := bis_range (fun m => ¬ k < (at_ s m)) 0 s.length (by omega)
  simp only [brI, len_]; omega
theorem bl_le_br' (s : List V) (k : Int) (hs : sortedV s) : bl s k ≤ br s k := by
  by_contra h
  have h1 := bl_rng s k
  have h2 := br_rng s k
  have a := (bl_spec s k hs).1 (br s k) (by omega) (by omega)
  have b := (br_spec s k hs).2 (br s k) (by omega) (by omega)
  omega

/-- sortedness is pairwise -/
theorem sortedV_iff (s : List V) : sortedV s ↔ s.Pairwise (fun a b => ord a ≤ ord b) := by
  rw [List.pairwise_iff_getElem]
  constructor
  · intro h i j hi hj hij
    have := h i j (by omega) (by omega) (by simp only [len_]; omega)
    rwa [at_get s i hi, at_get s j hj] at this
  · intro h i j h0 h1 h2
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ j by omega)
    simp only [len_] at h2
    rw [at_get s n (by omega), at_get s m (by omega)]
    by_cases e : n = m
    · subst e; exact le_refl _
    · exact h n m (by omega) (by omega) (by omega)

theorem sortedI_iff (s : List Int) : sortedI s ↔ s.Pairwise (fun a b => a ≤ b) := by
  rw [List.pairwise_iff_getElem]
  constructor
  · intro h i j hi hj hij
    have := h i j (by omega) (by omega) (by simp only [len_]; omega)
    rwa [at_get s i hi, at_get s j hj] at this
  · intro h i j h0 h1 h2
    obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ j by omega)
    simp only [len_] at h2
    rw [at_get s n (by omega), at_get s m (by omega)]
    by_cases e : n = m
    · subst e; exact le_refl _
    · exact h n m (by omega) (by omega) (by omega)

theorem mapord_at' (s : List V) (i : Int) (h0 : 0 ≤ i) (h1 : i < len_ s) : at_ (mapord s) i = ord (at_ s i) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  simp only [len_] at h1
  rw [at_get s n (by omega), at_get (mapord s) n (by simp [mapord]; omega)]
  simp [mapord]

/-! ### buckets -/
theorem PN_succ (LL : List (List V)) (n : Nat) (h : n < LL.length) : PN LL (n + 1) = PN LL n + LL[n].length := by
  simp only [PN, List.take_add_one, List.flatten_append, List.length_append, List.getElem?_eq_getElem h]
  simp
theorem PN_all (LL : List (List V)) (n : Nat) (h : LL.length ≤ n) : PN LL n = LL.flatten.length := by
  simp only [PN, List.take_of_length_le h]
theorem PN_mono (LL : List (List V)) (n m : Nat) (h : n ≤ m) : PN LL n ≤ PN LL m := by
  simp only [PN]
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le h
  rw [List.take_add]
  simp
theorem segN_spec (LL : List (List V)) (k : Nat) (h : k < LL.flatten.length) :
    segN LL k < LL.length ∧ PN LL (segN LL k) ≤ k ∧ k < PN LL (segN LL k) + (LL.getD (segN LL k) []).length ∧
    LL.flatten[k]? = (LL.getD (segN LL k) [])[k - PN LL (segN LL k)]? := by
  induction LL generalizing k with
  | nil => simp at h
  | cons l ls ih =>
    simp only [segN]
    split
    · rename_i hk
      simp [PN, hk, List.getElem?_append]
    · rename_i hk
      simp only [List.flatten_cons, List.length_append] at h
      have := ih (k - l.length) (by omega)
      obtain ⟨h1, h2, h3, h4⟩ := this
      have e : PN (l :: ls) (segN ls (k - l.length) + 1) = l.length + PN ls (segN ls (k - l.length)) := by
        simp [PN]
      rw [e]
      refine ⟨by simpa using h1, by omega, ?_, ?_⟩
      · simp only [List.getD_cons_succ]; omega
      · simp only [List.getD_cons_succ, List.flatten_cons, List.getElem?_append, not_lt.mpr (not_lt.1 hk), if_false, h4]
        congr 1; omega
theorem segN_uniq (LL : List (List V)) (i j : Nat) (hi : i < LL.length) (hj : j < LL[i].length) :
    segN LL (PN LL i + j) = i := by
  induction LL generalizing i with
  | nil => simp at hi
  | cons l ls ih =>
    cases i with
    | zero => simp at hj; simp [segN, PN, hj]
    | succ i =>
      have e : PN (l :: ls) (i + 1) = l.length + PN ls i := by simp [PN]
      rw [e]
      simp only [segN]
      rw [if_neg (by omega)]
      have := ih i (by simpa using hi) (by simpa using hj)
      rw [show l.length + PN ls i + j - l.length = PN ls i + j by omega, this]
theorem flat_get (LL : List (List V)) (i j : Nat) (hi : i < LL.length) (hj : j < LL[i].length) :
    LL.flatten[PN LL i + j]? = some LL[i][j] := by
  induction LL generalizing i with
  | nil => simp at hi
  | cons l ls ih =>
    cases i with
    | zero => simp at hj; simp [PN, hj, List.getElem?_append]
    | succ i =>
      have e : PN (l :: ls) (i + 1) = l.length + PN ls i := by simp [PN]
      rw [e]
      have := ih i (by simpa using hi) (by simpa using hj)
      rw [show l.length + PN ls i + j = l.length + (PN ls i + j) by omega]
      simp only [List.flatten_cons, List.getElem?_append_right (show l.length ≤ l.length + (PN ls i + j) by omega)]
      simpa using this
theorem take_PN (LL : List (List V)) (n : Nat) : LL.flatten.take (PN LL n) = (LL.take n).flatten := by
  conv_lhs => rw [← List.take_append_drop n LL, List.flatten_append]
  rw [PN]
  simp
theorem drop_PN (LL : List (List V)) (n : Nat) : LL.flatten.drop (PN LL n) = (LL.drop n).flatten := by
  conv_lhs => rw [← List.take_append_drop n LL, List.flatten_append]
  rw [PN]
  simp
end SC
