/- GENERATED by tools/lean_gen.py from pyvc/logic.py: do not edit. -/
import Model
set_option linter.all false
open Classical
namespace SC.Ax
open SC


def a_len_nonneg_V (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((len_ s) ≥ (0 : Int))
def a_len_emp_V (V : Type) [Ctx V] : Prop := ((len_ ([] : List V)) = (0 : Int))
def a_len_zero_V (V : Type) [Ctx V] : Prop := ∀ (s : List V), (((len_ s) = (0 : Int)) → (s = ([] : List V)))
def a_unit_V (V : Type) [Ctx V] : Prop := ∀ (x : V), (((len_ (unit_ x)) = (1 : Int)) ∧ ((at_ (unit_ x) (0 : Int)) = x))
def a_cat_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((len_ (cat_ s t)) = ((len_ s) + (len_ t)))
def a_cat_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < ((len_ s) + (len_ t)))) → ((at_ (cat_ s t) i) = (if (i < (len_ s)) then (at_ s i) else (at_ t (i - (len_ s))))))
def a_sl_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (a : Int) (b : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → ((len_ (sl_ s a b)) = (b - a)))
def a_sl_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (a : Int) (b : Int) (i : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < (b - a))) → ((at_ (sl_ s a b) i) = (at_ s (a + i))))
def a_upd_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), ((len_ (upd_ s i x)) = (len_ s))
def a_upd_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ s))) → ((at_ (upd_ s i x) j) = (if (i = j) then x else (at_ s j))))
def a_ins_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((len_ (ins_ s i x)) = ((len_ s) + (1 : Int))))
def a_ins_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V) (j : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j ≤ (len_ s))) → ((at_ (ins_ s i x) j) = (if (j < i) then (at_ s j) else (if (j = i) then x else (at_ s (j - (1 : Int)))))))
def a_rem_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((len_ (rem_ s i)) = ((len_ s) - (1 : Int))))
def a_rem_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < ((len_ s) - (1 : Int)))) → ((at_ (rem_ s i) j) = (if (j < i) then (at_ s j) else (at_ s (j + (1 : Int))))))
def a_rev_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((len_ (rev_ s)) = (len_ s))
def a_rev_at_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (rev_ s) i) = (at_ s (((len_ s) - (1 : Int)) - i))))
def a_rep_le0_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), ((i ≤ (0 : Int)) → ((rep_ s i) = ([] : List V)))
def a_rep_len_V (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), ((i > (0 : Int)) → ((len_ (rep_ s i)) = ((len_ s) * i)))
def a_len_nonneg_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int), ((len_ s) ≥ (0 : Int))
def a_len_emp_I (V : Type) [Ctx V] : Prop := ((len_ ([] : List Int)) = (0 : Int))
def a_len_zero_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int), (((len_ s) = (0 : Int)) → (s = ([] : List Int)))
def a_unit_I (V : Type) [Ctx V] : Prop := ∀ (x : Int), (((len_ (unit_ x)) = (1 : Int)) ∧ ((at_ (unit_ x) (0 : Int)) = x))
def a_cat_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (t : List Int), ((len_ (cat_ s t)) = ((len_ s) + (len_ t)))
def a_cat_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (t : List Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < ((len_ s) + (len_ t)))) → ((at_ (cat_ s t) i) = (if (i < (len_ s)) then (at_ s i) else (at_ t (i - (len_ s))))))
def a_sl_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (a : Int) (b : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → ((len_ (sl_ s a b)) = (b - a)))
def a_sl_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (a : Int) (b : Int) (i : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < (b - a))) → ((at_ (sl_ s a b) i) = (at_ s (a + i))))
def a_upd_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int) (x : Int), ((len_ (upd_ s i x)) = (len_ s))
def a_upd_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int) (x : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ s))) → ((at_ (upd_ s i x) j) = (if (i = j) then x else (at_ s j))))
def a_ins_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int) (x : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((len_ (ins_ s i x)) = ((len_ s) + (1 : Int))))
def a_ins_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int) (x : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j ≤ (len_ s))) → ((at_ (ins_ s i x) j) = (if (j < i) then (at_ s j) else (if (j = i) then x else (at_ s (j - (1 : Int)))))))
def a_rem_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((len_ (rem_ s i)) = ((len_ s) - (1 : Int))))
def a_rem_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < ((len_ s) - (1 : Int)))) → ((at_ (rem_ s i) j) = (if (j < i) then (at_ s j) else (at_ s (j + (1 : Int))))))
def a_rev_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int), ((len_ (rev_ s)) = (len_ s))
def a_rev_at_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (rev_ s) i) = (at_ s (((len_ s) - (1 : Int)) - i))))
def a_rep_le0_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int), ((i ≤ (0 : Int)) → ((rep_ s i) = ([] : List Int)))
def a_rep_len_I (V : Type) [Ctx V] : Prop := ∀ (s : List Int) (i : Int), ((i > (0 : Int)) → ((len_ (rep_ s i)) = ((len_ s) * i)))
def a_len_nonneg_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)), ((len_ s) ≥ (0 : Int))
def a_len_emp_SV (V : Type) [Ctx V] : Prop := ((len_ ([] : List (List V))) = (0 : Int))
def a_len_zero_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)), (((len_ s) = (0 : Int)) → (s = ([] : List (List V))))
def a_unit_SV (V : Type) [Ctx V] : Prop := ∀ (x : List V), (((len_ (unit_ x)) = (1 : Int)) ∧ ((at_ (unit_ x) (0 : Int)) = x))
def a_cat_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (t : List (List V)), ((len_ (cat_ s t)) = ((len_ s) + (len_ t)))
def a_cat_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (t : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < ((len_ s) + (len_ t)))) → ((at_ (cat_ s t) i) = (if (i < (len_ s)) then (at_ s i) else (at_ t (i - (len_ s))))))
def a_sl_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (a : Int) (b : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → ((len_ (sl_ s a b)) = (b - a)))
def a_sl_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (a : Int) (b : Int) (i : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < (b - a))) → ((at_ (sl_ s a b) i) = (at_ s (a + i))))
def a_upd_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int) (x : List V), ((len_ (upd_ s i x)) = (len_ s))
def a_upd_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int) (x : List V) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ s))) → ((at_ (upd_ s i x) j) = (if (i = j) then x else (at_ s j))))
def a_ins_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int) (x : List V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((len_ (ins_ s i x)) = ((len_ s) + (1 : Int))))
def a_ins_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int) (x : List V) (j : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j ≤ (len_ s))) → ((at_ (ins_ s i x) j) = (if (j < i) then (at_ s j) else (if (j = i) then x else (at_ s (j - (1 : Int)))))))
def a_rem_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((len_ (rem_ s i)) = ((len_ s) - (1 : Int))))
def a_rem_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < ((len_ s) - (1 : Int)))) → ((at_ (rem_ s i) j) = (if (j < i) then (at_ s j) else (at_ s (j + (1 : Int))))))
def a_rev_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)), ((len_ (rev_ s)) = (len_ s))
def a_rev_at_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (rev_ s) i) = (at_ s (((len_ s) - (1 : Int)) - i))))
def a_rep_le0_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int), ((i ≤ (0 : Int)) → ((rep_ s i) = ([] : List (List V))))
def a_rep_len_SV (V : Type) [Ctx V] : Prop := ∀ (s : List (List V)) (i : Int), ((i > (0 : Int)) → ((len_ (rep_ s i)) = ((len_ s) * i)))
def a_len_nonneg_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)), ((len_ s) ≥ (0 : Int))
def a_len_emp_SI (V : Type) [Ctx V] : Prop := ((len_ ([] : List (List Int))) = (0 : Int))
def a_len_zero_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)), (((len_ s) = (0 : Int)) → (s = ([] : List (List Int))))
def a_unit_SI (V : Type) [Ctx V] : Prop := ∀ (x : List Int), (((len_ (unit_ x)) = (1 : Int)) ∧ ((at_ (unit_ x) (0 : Int)) = x))
def a_cat_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (t : List (List Int)), ((len_ (cat_ s t)) = ((len_ s) + (len_ t)))
def a_cat_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (t : List (List Int)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < ((len_ s) + (len_ t)))) → ((at_ (cat_ s t) i) = (if (i < (len_ s)) then (at_ s i) else (at_ t (i - (len_ s))))))
def a_sl_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (a : Int) (b : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → ((len_ (sl_ s a b)) = (b - a)))
def a_sl_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (a : Int) (b : Int) (i : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < (b - a))) → ((at_ (sl_ s a b) i) = (at_ s (a + i))))
def a_upd_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int) (x : List Int), ((len_ (upd_ s i x)) = (len_ s))
def a_upd_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int) (x : List Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ s))) → ((at_ (upd_ s i x) j) = (if (i = j) then x else (at_ s j))))
def a_ins_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int) (x : List Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((len_ (ins_ s i x)) = ((len_ s) + (1 : Int))))
def a_ins_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int) (x : List Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j ≤ (len_ s))) → ((at_ (ins_ s i x) j) = (if (j < i) then (at_ s j) else (if (j = i) then x else (at_ s (j - (1 : Int)))))))
def a_rem_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((len_ (rem_ s i)) = ((len_ s) - (1 : Int))))
def a_rem_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < ((len_ s) - (1 : Int)))) → ((at_ (rem_ s i) j) = (if (j < i) then (at_ s j) else (at_ s (j + (1 : Int))))))
def a_rev_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)), ((len_ (rev_ s)) = (len_ s))
def a_rev_at_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (rev_ s) i) = (at_ s (((len_ s) - (1 : Int)) - i))))
def a_rep_le0_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int), ((i ≤ (0 : Int)) → ((rep_ s i) = ([] : List (List Int))))
def a_rep_len_SI (V : Type) [Ctx V] : Prop := ∀ (s : List (List Int)) (i : Int), ((i > (0 : Int)) → ((len_ (rep_ s i)) = ((len_ s) * i)))
def a_sortedV_elim (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), (((sortedV s) ∧ (i ≥ (0 : Int)) ∧ (i ≤ j) ∧ (j < (len_ s))) → ((ord (at_ s i)) ≤ (ord (at_ s j))))
def a_bl_range (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), (((bl s k) ≥ (0 : Int)) ∧ ((bl s k) ≤ (len_ s)))
def a_br_range (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), (((br s k) ≥ (0 : Int)) ∧ ((br s k) ≤ (len_ s)))
def a_bl_below (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int) (i : Int), (((sortedV s) ∧ (i ≥ (0 : Int)) ∧ (i < (bl s k))) → ((ord (at_ s i)) < k))
def a_bl_above (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int) (i : Int), (((sortedV s) ∧ ((bl s k) ≤ i) ∧ (i < (len_ s))) → ((ord (at_ s i)) ≥ k))
def a_br_below (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int) (i : Int), (((sortedV s) ∧ (i ≥ (0 : Int)) ∧ (i < (br s k))) → ((ord (at_ s i)) ≤ k))
def a_br_above (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int) (i : Int), (((sortedV s) ∧ ((br s k) ≤ i) ∧ (i < (len_ s))) → ((ord (at_ s i)) > k))
def a_bl_bound (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), ((sortedV s) → ((((bl s k) > (0 : Int)) → ((ord (at_ s ((bl s k) - (1 : Int)))) < k)) ∧ (((bl s k) < (len_ s)) → ((ord (at_ s (bl s k))) ≥ k))))
def a_br_bound (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), ((sortedV s) → ((((br s k) > (0 : Int)) → ((ord (at_ s ((br s k) - (1 : Int)))) ≤ k)) ∧ (((br s k) < (len_ s)) → ((ord (at_ s (br s k))) > k))))
def a_bl_le_br (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), ((sortedV s) → ((bl s k) ≤ (br s k)))
def a_sortedI_elim (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (i : Int) (j : Int), (((sortedI u) ∧ (i ≥ (0 : Int)) ∧ (i ≤ j) ∧ (j < (len_ u))) → ((at_ u i) ≤ (at_ u j)))
def a_blI_range (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int), (((blI u k) ≥ (0 : Int)) ∧ ((blI u k) ≤ (len_ u)))
def a_brI_range (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int), (((brI u k) ≥ (0 : Int)) ∧ ((brI u k) ≤ (len_ u)))
def a_blI_below (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int) (i : Int), (((sortedI u) ∧ (i ≥ (0 : Int)) ∧ (i < (blI u k))) → ((at_ u i) < k))
def a_blI_above (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int) (i : Int), (((sortedI u) ∧ ((blI u k) ≤ i) ∧ (i < (len_ u))) → ((at_ u i) ≥ k))
def a_brI_below (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int) (i : Int), (((sortedI u) ∧ (i ≥ (0 : Int)) ∧ (i < (brI u k))) → ((at_ u i) ≤ k))
def a_brI_above (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int) (i : Int), (((sortedI u) ∧ ((brI u k) ≤ i) ∧ (i < (len_ u))) → ((at_ u i) > k))
def a_blI_bound (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int), ((sortedI u) → ((((blI u k) > (0 : Int)) → ((at_ u ((blI u k) - (1 : Int))) < k)) ∧ (((blI u k) < (len_ u)) → ((at_ u (blI u k)) ≥ k))))
def a_brI_bound (V : Type) [Ctx V] : Prop := ∀ (u : List Int) (k : Int), ((sortedI u) → ((((brI u k) > (0 : Int)) → ((at_ u ((brI u k) - (1 : Int))) ≤ k)) ∧ (((brI u k) < (len_ u)) → ((at_ u (brI u k)) > k))))
def a_P_zero (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)), ((P LL (0 : Int)) = (0 : Int))
def a_P_total (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)), ((P LL (len_ LL)) = (len_ (flat LL)))
def a_P_next (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ LL))) → ((P LL (i + (1 : Int))) = ((P LL i) + (len_ (at_ LL i)))))
def a_P_mono (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < j) ∧ (j ≤ (len_ LL))) → (((P LL i) + (len_ (at_ LL i))) ≤ (P LL j)))
def a_P_range (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ LL))) → (((P LL i) ≥ (0 : Int)) ∧ ((P LL i) ≤ (len_ (flat LL)))))
def a_flat_at (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ LL)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ (at_ LL i)))) → (((at_ (flat LL) ((P LL i) + j)) = (at_ (at_ LL i) j)) ∧ ((seg LL ((P LL i) + j)) = i)))
def a_flat_at_base (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ LL)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ (at_ LL i)))) → (((at_ (flat LL) ((P LL i) + j)) = (at_ (at_ LL i) j)) ∧ ((seg LL ((P LL i) + j)) = i)))
def a_flat_seg (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (k : Int), (((k ≥ (0 : Int)) ∧ (k < (len_ (flat LL)))) → (((seg LL k) ≥ (0 : Int)) ∧ ((seg LL k) < (len_ LL)) ∧ ((P LL (seg LL k)) ≤ k) ∧ (k < ((P LL (seg LL k)) + (len_ (at_ LL (seg LL k))))) ∧ ((at_ (flat LL) k) = (at_ (at_ LL (seg LL k)) (k - (P LL (seg LL k)))))))
def a_flat_emp (V : Type) [Ctx V] : Prop := ((flat ([] : List (List V))) = ([] : List V))
def a_flat_upd (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int) (s : List V), (((p ≥ (0 : Int)) ∧ (p < (len_ LL))) → ((flat (upd_ LL p s)) = (cat_ (cat_ (sl_ (flat LL) (0 : Int) (P LL p)) s) (sl_ (flat LL) ((P LL p) + (len_ (at_ LL p))) (len_ (flat LL))))))
def a_flat_ins (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int) (s : List V), (((p ≥ (0 : Int)) ∧ (p ≤ (len_ LL))) → ((flat (ins_ LL p s)) = (cat_ (cat_ (sl_ (flat LL) (0 : Int) (P LL p)) s) (sl_ (flat LL) (P LL p) (len_ (flat LL))))))
def a_flat_rem (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int), (((p ≥ (0 : Int)) ∧ (p < (len_ LL))) → ((flat (rem_ LL p)) = (cat_ (sl_ (flat LL) (0 : Int) (P LL p)) (sl_ (flat LL) ((P LL p) + (len_ (at_ LL p))) (len_ (flat LL))))))
def a_flat_cat (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (MM : List (List V)), ((flat (cat_ LL MM)) = (cat_ (flat LL) (flat MM)))
def a_flat_unit (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((flat (unit_ s)) = s)
def a_flat_sl (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (a : Int) (b : Int), (((a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ LL))) → ((flat (sl_ LL a b)) = (sl_ (flat LL) (P LL a) (P LL b))))
def a_P_upd (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int) (s : List V) (i : Int), (((p ≥ (0 : Int)) ∧ (p < (len_ LL)) ∧ (i ≥ (0 : Int)) ∧ (i ≤ (len_ LL))) → ((P (upd_ LL p s) i) = (if (i ≤ p) then (P LL i) else (((P LL i) + (len_ s)) - (len_ (at_ LL p))))))
def a_P_ins (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int) (s : List V) (i : Int), (((p ≥ (0 : Int)) ∧ (p ≤ (len_ LL)) ∧ (i ≥ (0 : Int)) ∧ (i ≤ ((len_ LL) + (1 : Int)))) → ((P (ins_ LL p s) i) = (if (i ≤ p) then (P LL i) else ((P LL (i - (1 : Int))) + (len_ s)))))
def a_P_rem (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (p : Int) (i : Int), (((p ≥ (0 : Int)) ∧ (p < (len_ LL)) ∧ (i ≥ (0 : Int)) ∧ (i ≤ ((len_ LL) - (1 : Int)))) → ((P (rem_ LL p) i) = (if (i ≤ p) then (P LL i) else ((P LL (i + (1 : Int))) - (len_ (at_ LL p))))))
def a_revall_len (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)), ((len_ (revall LL)) = (len_ LL))
def a_revall_at (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ LL))) → ((at_ (revall LL) i) = (rev_ (at_ LL i))))
def a_flat_rev (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)), ((flat (revall (rev_ LL))) = (rev_ (flat LL)))
def a_flatI_emp (V : Type) [Ctx V] : Prop := ((flatI ([] : List (List Int))) = ([] : List Int))
def a_flatI_unit (V : Type) [Ctx V] : Prop := ∀ (u : List Int), ((flatI (unit_ u)) = u)
def a_flatI_cat (V : Type) [Ctx V] : Prop := ∀ (X : List (List Int)) (Y : List (List Int)), ((flatI (cat_ X Y)) = (cat_ (flatI X) (flatI Y)))
def a_flatI_rev_snoc (V : Type) [Ctx V] : Prop := ∀ (X : List (List Int)) (u : List Int), ((flatI (rev_ (cat_ X (unit_ u)))) = (cat_ u (flatI (rev_ X))))
def a_flatI_rev_unit (V : Type) [Ctx V] : Prop := ∀ (u : List Int), ((flatI (rev_ (unit_ u))) = u)
def a_flatI_rev_last (V : Type) [Ctx V] : Prop := ∀ (X : List (List Int)) (i : Int), ((((len_ X) ≥ (1 : Int)) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ (at_ X ((len_ X) - (1 : Int)))))) → (((len_ (at_ X ((len_ X) - (1 : Int)))) ≤ (len_ (flatI (rev_ X)))) ∧ ((at_ (flatI (rev_ X)) i) = (at_ (at_ X ((len_ X) - (1 : Int))) i))))
def a_mapord_len (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((len_ (mapord s)) = (len_ s))
def a_mapord_at (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (mapord s) i) = (ord (at_ s i))))
def a_mapord_at2 (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (mapord s) i) = (ord (at_ s i))))
def a_mapord_sorted (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((sortedI (mapord s)) ↔ (sortedV s))
def a_mapord_bl (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), ((blI (mapord s) k) = (bl s k))
def a_mapord_br (V : Type) [Ctx V] : Prop := ∀ (s : List V) (k : Int), ((brI (mapord s) k) = (br s k))
def a_sorted_emp (V : Type) [Ctx V] : Prop := (sortedV ([] : List V))
def a_sorted_unit (V : Type) [Ctx V] : Prop := ∀ (v : V), (sortedV (unit_ v))
def a_sorted_sl (V : Type) [Ctx V] : Prop := ∀ (s : List V) (a : Int) (b : Int), (((sortedV s) ∧ (a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → (sortedV (sl_ s a b)))
def a_sorted_cat (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((sortedV (cat_ s t)) ↔ ((sortedV s) ∧ (sortedV t) ∧ (((len_ s) = (0 : Int)) ∨ ((len_ t) = (0 : Int)) ∨ ((ord (at_ s ((len_ s) - (1 : Int)))) ≤ (ord (at_ t (0 : Int)))))))
def a_flat_sorted (V : Type) [Ctx V] : Prop := ∀ (LL : List (List V)) (i : Int), (((sortedV (flat LL)) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ LL))) → (sortedV (at_ LL i)))
def a_ssort_sorted (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((sortedV (ssort s)) ∧ ((len_ (ssort s)) = (len_ s)))
def a_ssort_id (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((sortedV s) → ((ssort s) = s))
def a_ssort_cat (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((ssort (cat_ s (ssort t))) = (ssort (cat_ s t)))
def a_ssort_cat_l (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((ssort (cat_ (ssort s) t)) = (ssort (cat_ s t)))
def a_ssort_snoc (V : Type) [Ctx V] : Prop := ∀ (F : List V) (s : List V) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j = (i + (1 : Int)))) → ((ssort (cat_ F (sl_ s (0 : Int) j))) = (ins_ (ssort (cat_ F (sl_ s (0 : Int) i))) (br (ssort (cat_ F (sl_ s (0 : Int) i))) (ord (at_ s i))) (at_ s i))))
def a_ssort_add (V : Type) [Ctx V] : Prop := ∀ (F : List V) (v : V), ((sortedV F) → ((ssort (cat_ F (unit_ v))) = (ins_ F (br F (ord v)) v)))
def a_cat_sl0 (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((cat_ s (sl_ t (0 : Int) (0 : Int))) = s)
def a_cat_emp (V : Type) [Ctx V] : Prop := ∀ (s : List V), (((cat_ s ([] : List V)) = s) ∧ ((cat_ ([] : List V) s) = s))
def a_sl_full (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), ((i = (len_ s)) → ((sl_ s (0 : Int) i) = s))
def a_nsort_len (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((len_ (nsort s)) = (len_ s))
def a_fdiff (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), (((fdiff s t) ≥ (0 : Int)) ∧ ((fdiff s t) ≤ (len_ s)) ∧ ((fdiff s t) ≤ (len_ t)) ∧ (((fdiff s t) = (len_ s)) ∨ ((fdiff s t) = (len_ t)) ∨ (¬ ((eqc (at_ s (fdiff s t))) = (eqc (at_ t (fdiff s t)))))))
def a_fdiff_min (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (fdiff s t))) → ((eqc (at_ s i)) = (eqc (at_ t i))))
def a_first_range (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), (((first_ s v) ≥ (0 : Int)) ∧ ((first_ s v) ≤ (len_ s)) ∧ (((first_ s v) < (len_ s)) → ((eqc (at_ s (first_ s v))) = (eqc v))))
def a_first_min (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (first_ s v))) → (¬ ((eqc (at_ s i)) = (eqc v))))
def a_firstf_range (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (a : Int), (((a ≥ (0 : Int)) ∧ (a ≤ (len_ s))) → ((a ≤ (firstf s v a)) ∧ ((firstf s v a) ≤ (len_ s)) ∧ (((firstf s v a) < (len_ s)) → ((eqc (at_ s (firstf s v a))) = (eqc v)))))
def a_firstf_min (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (a : Int) (i : Int), (((a ≥ (0 : Int)) ∧ (a ≤ i) ∧ (i < (firstf s v a))) → (¬ ((eqc (at_ s i)) = (eqc v))))
def a_cnt_zero (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), ((cnt s v (0 : Int)) = (0 : Int))
def a_cnt_step (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j = (i + (1 : Int)))) → ((cnt s v j) = ((cnt s v i) + (if ((eqc (at_ s i)) = (eqc v)) then (1 : Int) else (0 : Int)))))
def a_cnt_lo (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (i : Int), (((sortedV s) ∧ (i ≥ (0 : Int)) ∧ (i ≤ (bl s (ord v)))) → ((cnt s v i) = (0 : Int)))
def a_cnt_hi (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (i : Int), (((sortedV s) ∧ ((br s (ord v)) ≤ i) ∧ (i ≤ (len_ s))) → ((cnt s v i) = (cnt s v (len_ s))))
def a_cnt_plain (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), (((isplain V) ∧ (sortedV s)) → ((cnt s v (len_ s)) = ((br s (ord v)) - (bl s (ord v)))))
def a_first_plain (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), (((isplain V) ∧ (sortedV s)) → ((first_ s v) = (if ((bl s (ord v)) < (br s (ord v))) then (bl s (ord v)) else (len_ s))))
def a_firstf_plain (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V) (a : Int), (((isplain V) ∧ (sortedV s) ∧ (a ≥ (0 : Int)) ∧ (a ≤ (len_ s))) → ((firstf s v a) = (if ((bl s (ord v)) ≥ (br s (ord v))) then (len_ s) else (if (a < (bl s (ord v))) then (bl s (ord v)) else (if (a < (br s (ord v))) then a else (len_ s))))))
def a_chunks_len (V : Type) [Ctx V] : Prop := ∀ (s : List V) (m : Int), ((m ≥ (1 : Int)) → ((((len_ (chunks s m)) = (0 : Int)) ↔ ((len_ s) = (0 : Int))) ∧ ((flat (chunks s m)) = s)))
def a_chunks_at (V : Type) [Ctx V] : Prop := ∀ (s : List V) (m : Int) (i : Int), (((m ≥ (1 : Int)) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ (chunks s m)))) → (((len_ (at_ (chunks s m) i)) ≥ (1 : Int)) ∧ ((len_ (at_ (chunks s m) i)) ≤ m) ∧ ((i < ((len_ (chunks s m)) - (1 : Int))) → ((len_ (at_ (chunks s m) i)) = m))))
def a_hlf (V : Type) [Ctx V] : Prop := ∀ (i : Int), ((((2 : Int) * (hlf i)) ≤ i) ∧ (i ≤ (((2 : Int) * (hlf i)) + (1 : Int))))
def a_pow2_pos (V : Type) [Ctx V] : Prop := ∀ (i : Int), ((pow2 i) → ((i ≥ (1 : Int)) ∧ ((i = (1 : Int)) ∨ (i = ((2 : Int) * (hlf i))))))
def a_pow2_half (V : Type) [Ctx V] : Prop := ∀ (i : Int), (((pow2 i) ∧ (i ≠ (1 : Int))) → (pow2 (hlf i)))
def a_pow2_dbl (V : Type) [Ctx V] : Prop := ∀ (i : Int) (j : Int), (((pow2 i) ∧ (j = ((2 : Int) * i))) → (pow2 j))
def a_pow2_one (V : Type) [Ctx V] : Prop := ∀ (i : Int), (((i = (1 : Int)) ∨ (i = (2 : Int))) → (pow2 i))
def a_npow (V : Type) [Ctx V] : Prop := ∀ (i : Int), ((i ≥ (1 : Int)) → ((pow2 (npow i)) ∧ ((npow i) > i) ∧ ((npow i) ≤ ((2 : Int) * i))))
def a_LS_leaf (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)) (j : Int), (((treeok Ix off LL) ∧ (off ≤ j) ∧ (j < (off + (len_ LL)))) → ((LS Ix j) = (P LL (j - off))))
def a_tree_root (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)), ((treeok Ix off LL) → (((at_ Ix (0 : Int)) = (P LL (len_ LL))) ∧ ((LS Ix (0 : Int)) = (0 : Int))))
def a_mem_emp (V : Type) [Ctx V] : Prop := ∀ (v : V), (¬ (mem (∅ : Finset V) v))
def a_mem_setof (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), ((mem (setof s) v) → (((hi s v) ≥ (0 : Int)) ∧ ((hi s v) < (len_ s)) ∧ ((at_ s (hi s v)) = v)))
def a_mem_at (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → (mem (setof s) (at_ s i)))
def a_mem_union (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), ((mem (sunion S T) v) ↔ ((mem S v) ∨ (mem T v)))
def a_mem_inter (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), ((mem (sinter S T) v) ↔ ((mem S v) ∧ (mem T v)))
def a_mem_diff (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), ((mem (sdiff S T) v) ↔ ((mem S v) ∧ (¬ (mem T v))))
def a_mem_sym (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), ((mem (ssym S T) v) ↔ (¬ ((mem S v) ↔ (mem T v))))
def a_mem_add (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (w : V) (v : V), ((mem (sadd S w) v) ↔ ((v = w) ∨ (mem S v)))
def a_mem_del (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (w : V) (v : V), ((mem (sdel S w) v) ↔ ((v ≠ w) ∧ (mem S v)))
def a_setof_emp (V : Type) [Ctx V] : Prop := ((setof ([] : List V)) = (∅ : Finset V))
def a_setof_unit (V : Type) [Ctx V] : Prop := ∀ (v : V), ((setof (unit_ v)) = (sadd (∅ : Finset V) v))
def a_setof_cat (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V), ((setof (cat_ s t)) = (sunion (setof s) (setof t)))
def a_setof_ins (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (v : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((setof (ins_ s i v)) = (sadd (setof s) v)))
def a_setof_rem (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((distinct s) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((setof (rem_ s i)) = (sdel (setof s) (at_ s i))))
def a_occ_emp (V : Type) [Ctx V] : Prop := ∀ (v : V), ((occ ([] : List V) v) = (0 : Int))
def a_occ_unit (V : Type) [Ctx V] : Prop := ∀ (v : V) (w_ : V), ((occ (unit_ w_) v) = (if (w_ = v) then (1 : Int) else (0 : Int)))
def a_occ_cat (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V) (v : V), ((occ (cat_ s t) v) = ((occ s v) + (occ t v)))
def a_occ_ssort (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), ((occ (ssort s) v) = (occ s v))
def a_occ_rev (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), ((occ (rev_ s) v) = (occ s v))
def a_occ_ins (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (w_ : V) (v : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((occ (ins_ s i w_) v) = ((occ s v) + (if (w_ = v) then (1 : Int) else (0 : Int)))))
def a_occ_rem (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (v : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((occ (rem_ s i) v) = ((occ s v) - (if ((at_ s i) = v) then (1 : Int) else (0 : Int)))))
def a_occ_upd (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (w_ : V) (v : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((occ (upd_ s i w_) v) = (((occ s v) - (if ((at_ s i) = v) then (1 : Int) else (0 : Int))) + (if (w_ = v) then (1 : Int) else (0 : Int)))))
def a_occ_sl (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (v : V), (((i ≥ (0 : Int)) ∧ (i ≤ j) ∧ (j ≤ (len_ s))) → (((occ (sl_ s (0 : Int) i) v) + (occ (sl_ s i j) v)) = (occ (sl_ s (0 : Int) j) v)))
def a_setof_ssort (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((setof (ssort s)) = (setof s))
def a_setof_rev (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((setof (rev_ s)) = (setof s))
def a_setof_snoc (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j = (i + (1 : Int)))) → ((setof (sl_ s (0 : Int) j)) = (sadd (setof (sl_ s (0 : Int) i)) (at_ s i))))
def a_distinct_elim (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), (((distinct s) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ s)) ∧ (j ≥ (0 : Int)) ∧ (j < (len_ s)) ∧ ((at_ s i) = (at_ s j))) → (i = j))
def a_distinct_emp (V : Type) [Ctx V] : Prop := (distinct ([] : List V))
def a_distinct_unit (V : Type) [Ctx V] : Prop := ∀ (v : V), (distinct (unit_ v))
def a_distinct_ins (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (v : V), (((distinct s) ∧ (i ≥ (0 : Int)) ∧ (i ≤ (len_ s)) ∧ (¬ (mem (setof s) v))) → (distinct (ins_ s i v)))
def a_distinct_rem (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((distinct s) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ s))) → (distinct (rem_ s i)))
def a_distinct_sl (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), (((distinct s) ∧ (i ≥ (0 : Int)) ∧ (i ≤ j) ∧ (j ≤ (len_ s))) → (distinct (sl_ s i j)))
def a_distinct_ssort (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((distinct (ssort s)) ↔ (distinct s))
def a_seqof (V : Type) [Ctx V] : Prop := ∀ (S : Finset V), ((distinct (seqof S)) ∧ ((setof (seqof S)) = S) ∧ ((len_ (seqof S)) = (card S)))
def a_card_setof (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((distinct s) → ((card (setof s)) = (len_ s)))
def a_card_nonneg (V : Type) [Ctx V] : Prop := ∀ (S : Finset V), (((card S) ≥ (0 : Int)) ∧ (((card S) = (0 : Int)) ↔ (S = (∅ : Finset V))))
def a_dom_emp (V : Type) [Ctx V] : Prop := ((dom (memp : Mp V)) = (∅ : Finset V))
def a_dom_put (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (w : V) (x : V), (((dom (mput D w x)) = (sadd (dom D) w)) ∧ ((val (mput D w x) w) = x))
def a_val_put (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (w : V) (x : V) (v : V), ((val (mput D w x) v) = (if (v = w) then x else (val D v)))
def a_dom_del (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (w : V), ((dom (mdel D w)) = (sdel (dom D) w))
def a_val_del (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (w : V) (v : V), ((v ≠ w) → ((val (mdel D w) v) = (val D v)))
def a_dom_merge (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (E : Mp V), ((dom (mmerge D E)) = (sunion (dom D) (dom E)))
def a_val_merge (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (E : Mp V) (v : V), ((val (mmerge D E) v) = (if (mem (dom E) v) then (val E v) else (val D v)))
def a_mvals_len (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (ks : List V), ((len_ (mvals D ks)) = (len_ ks))
def a_mvals_at (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (ks : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (len_ ks))) → ((at_ (mvals D ks) i) = (val D (at_ ks i))))
def a_dom_pairs (V : Type) [Ctx V] : Prop := ∀ (ks : List V) (vs : List V), (((len_ ks) = (len_ vs)) → ((dom (mpairs ks vs)) = (setof ks)))
def a_val_pairs_vals (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (ks : List V) (v : V), ((mem (setof ks) v) → ((val (mpairs ks (mvals D ks)) v) = (val D v)))
def a_pairs_cat (V : Type) [Ctx V] : Prop := ∀ (s : List V) (t : List V) (ks : List V) (vs : List V), (((len_ s) = (len_ t)) → ((mpairs (cat_ s ks) (cat_ t vs)) = (mmerge (mpairs s t) (mpairs ks vs))))
def a_dom_minus (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (S : Finset V), ((dom (mminus D S)) = (sdiff (dom D) S))
def a_val_minus (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (S : Finset V) (v : V), ((¬ (mem S v)) → ((val (mminus D S) v) = (val D v)))
def a_konst (V : Type) [Ctx V] : Prop := ∀ (x : V) (i : Int), ((i ≥ (0 : Int)) → ((len_ (konst x i)) = i))
def a_konst_at (V : Type) [Ctx V] : Prop := ∀ (x : V) (i : Int) (j : Int), (((j ≥ (0 : Int)) ∧ (j < i)) → ((at_ (konst x i) j) = x))
def a_val_konst (V : Type) [Ctx V] : Prop := ∀ (ks : List V) (x : V) (v : V), ((mem (setof ks) v) → ((val (mpairs ks (konst x (len_ ks))) v) = x))
def a_subset_elim (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), (((subset S T) ∧ (mem S v)) → (mem T v))
def a_disjoint_elim (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V) (v : V), (((subset (sinter S T) (∅ : Finset V)) ∧ (mem S v)) → (¬ (mem T v)))
def a_subset_intro (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V), ((subset S T) ∨ ((mem S (sub_w S T)) ∧ (¬ (mem T (sub_w S T)))))
def a_subset_ext (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V), (((subset S T) ∧ (subset T S)) → (S = T))
def a_distinct_intro (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((distinct s) ∨ (((dw1 s) ≥ (0 : Int)) ∧ ((dw1 s) < (dw2 s)) ∧ ((dw2 s) < (len_ s)) ∧ ((at_ s (dw1 s)) = (at_ s (dw2 s)))))
def a_cnt_distinct (V : Type) [Ctx V] : Prop := ∀ (s : List V) (v : V), ((distinct s) → (((cnt s v (len_ s)) = (if (mem (setof s) v) then (1 : Int) else (0 : Int))) ∨ (((cw s v) ≥ (0 : Int)) ∧ ((cw s v) < (len_ s)) ∧ ((eqc (at_ s (cw s v))) = (eqc v)) ∧ ((at_ s (cw s v)) ≠ v))))
def a_card_sunion (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V), (((card S) ≤ (card (sunion S T))) ∧ ((card T) ≤ (card (sunion S T))) ∧ ((card (sunion S T)) ≤ ((card S) + (card T))) ∧ (((card (sunion S T)) = (card S)) → ((sunion S T) = S)) ∧ (((card (sunion S T)) = (card T)) → ((sunion S T) = T)))
def a_card_sinter (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V), (((card (sinter S T)) ≤ (card S)) ∧ ((card (sinter S T)) ≤ (card T)) ∧ (((card (sinter S T)) = (card S)) → ((sinter S T) = S)) ∧ (((card (sinter S T)) = (card T)) → ((sinter S T) = T)))
def a_card_sdiff (V : Type) [Ctx V] : Prop := ∀ (S : Finset V) (T : Finset V), (((card (sdiff S T)) ≤ (card S)) ∧ (((card (sdiff S T)) = (card S)) → ((sdiff S T) = S)))
def a_mem_sl (V : Type) [Ctx V] : Prop := ∀ (s : List V) (a : Int) (b : Int) (v : V), (((distinct s) ∧ (a ≥ (0 : Int)) ∧ (a ≤ b) ∧ (b ≤ (len_ s))) → ((mem (setof (sl_ s a b)) v) ↔ ((mem (setof s) v) ∧ (a ≤ (hi s v)) ∧ ((hi s v) < b))))
def a_dom_restr (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (S : Finset V), ((dom (mrestr D S)) = (sinter (dom D) S))
def a_val_restr (V : Type) [Ctx V] : Prop := ∀ (D : Mp V) (S : Finset V) (v : V), ((mem (sinter (dom D) S) v) → ((val (mrestr D S) v) = (val D v)))
def a_mulf_zero (V : Type) [Ctx V] : Prop := ∀ (st : Int), ((mulf (0 : Int) st) = (0 : Int))
def a_rlen_pos (V : Type) [Ctx V] : Prop := ∀ (a : Int) (b : Int) (st : Int), ((st > (0 : Int)) → (((rlen a b st) ≥ (0 : Int)) ∧ (((rlen a b st) > (0 : Int)) ↔ (a < b))))
def a_rlen_neg (V : Type) [Ctx V] : Prop := ∀ (a : Int) (b : Int) (st : Int), ((st < (0 : Int)) → (((rlen a b st) ≥ (0 : Int)) ∧ (((rlen a b st) > (0 : Int)) ↔ (a > b))))
def a_rlen_in (V : Type) [Ctx V] : Prop := ∀ (a : Int) (b : Int) (st : Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (rlen a b st)) ∧ (st > (0 : Int))) → (((a + i) ≤ (a + (mulf i st))) ∧ ((a + (mulf i st)) < (b - (((rlen a b st) - (1 : Int)) - i)))))
def a_rlen_in_neg (V : Type) [Ctx V] : Prop := ∀ (a : Int) (b : Int) (st : Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < (rlen a b st)) ∧ (st < (0 : Int))) → (((a + (mulf i st)) ≤ (a - i)) ∧ ((b + (((rlen a b st) - (1 : Int)) - i)) < (a + (mulf i st)))))
def a_rms_zero (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (n : Int) (st : Int), ((rms F a n st (0 : Int)) = F)
def a_rms_step (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (n : Int) (st : Int) (i : Int) (j : Int), (((i ≥ (0 : Int)) ∧ (i < n) ∧ (j = (i + (1 : Int)))) → ((rms F a n st j) = (rem_ (rms F a n st i) (if (st > (0 : Int)) then (a + (mulf ((n - (1 : Int)) - i) st)) else (a + (mulf i st))))))
def a_rms_len (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (b : Int) (st : Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (rlen a b st)) ∧ (st ≠ (0 : Int)) ∧ ((st > (0 : Int)) → ((a ≥ (0 : Int)) ∧ (b ≤ (len_ F)))) ∧ ((st < (0 : Int)) → ((a < (len_ F)) ∧ (b ≥ (-1 : Int))))) → ((len_ (rms F a (rlen a b st) st i)) = ((len_ F) - i)))
def a_selseq_len (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (n : Int) (st : Int), ((n ≥ (0 : Int)) → ((len_ (selseq F a n st)) = n))
def a_selseq_at (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (n : Int) (st : Int) (i : Int), (((i ≥ (0 : Int)) ∧ (i < n)) → ((at_ (selseq F a n st) i) = (at_ F (a + (mulf i st)))))
def a_selseq_distinct (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (b : Int) (st : Int), (((distinct F) ∧ ((st ≠ (0 : Int)) ∧ ((st > (0 : Int)) → ((a ≥ (0 : Int)) ∧ (b ≤ (len_ F)))) ∧ ((st < (0 : Int)) → ((a < (len_ F)) ∧ (b ≥ (-1 : Int)))))) → (distinct (selseq F a (rlen a b st) st)))
def a_selseq_sub (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (b : Int) (st : Int), (((st ≠ (0 : Int)) ∧ ((st > (0 : Int)) → ((a ≥ (0 : Int)) ∧ (b ≤ (len_ F)))) ∧ ((st < (0 : Int)) → ((a < (len_ F)) ∧ (b ≥ (-1 : Int))))) → (subset (setof (selseq F a (rlen a b st) st)) (setof F)))
def a_setof_rms (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (b : Int) (st : Int), (((distinct F) ∧ ((st ≠ (0 : Int)) ∧ ((st > (0 : Int)) → ((a ≥ (0 : Int)) ∧ (b ≤ (len_ F)))) ∧ ((st < (0 : Int)) → ((a < (len_ F)) ∧ (b ≥ (-1 : Int)))))) → ((setof (rms F a (rlen a b st) st (rlen a b st))) = (sdiff (setof F) (setof (selseq F a (rlen a b st) st)))))
def a_distinct_rms (V : Type) [Ctx V] : Prop := ∀ (F : List V) (a : Int) (b : Int) (st : Int) (i : Int), (((distinct F) ∧ ((st ≠ (0 : Int)) ∧ ((st > (0 : Int)) → ((a ≥ (0 : Int)) ∧ (b ≤ (len_ F)))) ∧ ((st < (0 : Int)) → ((a < (len_ F)) ∧ (b ≥ (-1 : Int))))) ∧ (i ≥ (0 : Int)) ∧ (i ≤ (rlen a b st))) → (distinct (rms F a (rlen a b st) st i)))
def a_treeok_shape (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)), ((treeok Ix off LL) → ((off ≥ (0 : Int)) ∧ (pow2 (off + (1 : Int))) ∧ ((len_ LL) ≥ (2 : Int)) ∧ ((len_ LL) ≤ (off + (1 : Int))) ∧ ((len_ Ix) = (off + (len_ LL)))))
def a_treeok_leaf (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)) (i : Int), (((treeok Ix off LL) ∧ (i ≥ (0 : Int)) ∧ (i < (len_ LL))) → ((at_ Ix (off + i)) = (len_ (at_ LL i))))
def a_treeok_node (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)) (k : Int), (((treeok Ix off LL) ∧ (k ≥ (0 : Int)) ∧ (k < off)) → ((at_ Ix k) = ((if (((((2 : Int) * k) + (1 : Int)) ≥ (0 : Int)) ∧ ((((2 : Int) * k) + (1 : Int)) < (len_ Ix))) then (at_ Ix (((2 : Int) * k) + (1 : Int))) else (0 : Int)) + (if (((((2 : Int) * k) + (2 : Int)) ≥ (0 : Int)) ∧ ((((2 : Int) * k) + (2 : Int)) < (len_ Ix))) then (at_ Ix (((2 : Int) * k) + (2 : Int))) else (0 : Int)))))
def a_sortedV_intro (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((∀ (si' : Int) (sj' : Int), (((si' ≥ (0 : Int)) ∧ (si' < sj') ∧ (sj' < (len_ s))) → ((ord (at_ s si')) ≤ (ord (at_ s sj'))))) → (sortedV s))
def a_LS_unfold (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (c : Int), ((LS Ix c) = (if (c ≤ (0 : Int)) then (0 : Int) else (if (((2 : Int) * (hlf c)) = c) then ((if (((c - (1 : Int)) ≥ (0 : Int)) ∧ ((c - (1 : Int)) < (len_ Ix))) then (at_ Ix (c - (1 : Int))) else (0 : Int)) + (LS Ix (hlf (c - (1 : Int))))) else (LS Ix (hlf (c - (1 : Int)))))))
def a_treeok_intro (V : Type) [Ctx V] : Prop := ∀ (Ix : List Int) (off : Int) (LL : List (List V)), ((((off ≥ (0 : Int)) ∧ (pow2 (off + (1 : Int))) ∧ ((len_ LL) ≥ (2 : Int)) ∧ ((len_ LL) ≤ (off + (1 : Int))) ∧ ((len_ Ix) = (off + (len_ LL)))) ∧ (∀ (ti' : Int), (((ti' ≥ (0 : Int)) ∧ (ti' < (len_ LL))) → (((at_ Ix (off + ti')) + (0 : Int)) = (len_ (at_ LL ti'))))) ∧ (∀ (tk' : Int), (((tk' ≥ (0 : Int)) ∧ (tk' < off)) → (((at_ Ix tk') + (0 : Int)) = ((if (((((2 : Int) * tk') + (1 : Int)) ≥ (0 : Int)) ∧ ((((2 : Int) * tk') + (1 : Int)) < (len_ Ix))) then (at_ Ix (((2 : Int) * tk') + (1 : Int))) else (0 : Int)) + (if (((((2 : Int) * tk') + (2 : Int)) ≥ (0 : Int)) ∧ ((((2 : Int) * tk') + (2 : Int)) < (len_ Ix))) then (at_ Ix (((2 : Int) * tk') + (2 : Int))) else (0 : Int))))))) → (treeok Ix off LL))
def a_rw_at_unit (V : Type) [Ctx V] : Prop := ∀ (x : V), ((at_ (unit_ x) (0 : Int)) = x)
def a_rw_at_upd_eq (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((at_ (upd_ s i x) i) = x))
def a_rw_at_upd_ne (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V), ((((i ≥ (0 : Int)) ∧ (i < (len_ s))) ∧ ((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (i ≠ j)) → ((at_ (upd_ s j x) i) = (at_ s i)))
def a_rw_at_ins_eq (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((at_ (ins_ s i x) i) = x))
def a_rw_at_ins_lt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V), (((j ≥ (0 : Int)) ∧ (j ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < j)) → ((at_ (ins_ s j x) i) = (at_ s i)))
def a_rw_at_ins_gt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V), (((j ≥ (0 : Int)) ∧ (j ≤ (len_ s)) ∧ (j < i) ∧ (i ≤ (len_ s))) → ((at_ (ins_ s j x) i) = (at_ s (i - (1 : Int)))))
def a_rw_at_rem_lt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), ((((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (i ≥ (0 : Int)) ∧ (i < j)) → ((at_ (rem_ s j) i) = (at_ s i)))
def a_rw_at_rem_ge (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int), ((((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (j ≤ i) ∧ (i < ((len_ s) - (1 : Int)))) → ((at_ (rem_ s j) i) = (at_ s (i + (1 : Int)))))
def a_rw_at_cat_unit_l (V : Type) [Ctx V] : Prop := ∀ (s : List V) (x : V), ((at_ (cat_ (unit_ x) s) (0 : Int)) = x)
def a_rw_at_cat_unit_r (V : Type) [Ctx V] : Prop := ∀ (s : List V) (x : V), ((at_ (cat_ s (unit_ x)) (len_ s)) = x)
def a_rw_sl_all (V : Type) [Ctx V] : Prop := ∀ (s : List V), ((sl_ s (0 : Int) (len_ s)) = s)
def a_rw_sl_none (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((sl_ s i i) = ([] : List V)))
def a_rw_card_semp (V : Type) [Ctx V] : Prop := ((card (∅ : Finset V)) = (0 : Int))
def a_rw_seqof_semp (V : Type) [Ctx V] : Prop := ((seqof (∅ : Finset V)) = ([] : List V))
def a_rw_ssort_emp (V : Type) [Ctx V] : Prop := ((ssort ([] : List V)) = ([] : List V))
def a_rw_upd_upd (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V) (y : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((upd_ (upd_ s i x) i y) = (upd_ s i y)))
def a_rw_upd_upd_ne (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V) (y : V), ((((i ≥ (0 : Int)) ∧ (i < (len_ s))) ∧ ((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (i ≠ j)) → ((upd_ (upd_ s j y) i x) = (upd_ (upd_ s i x) j y)))
def a_rw_upd_ins_eq (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V) (y : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((upd_ (ins_ s i x) i y) = (ins_ s i y)))
def a_rw_upd_ins_lt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V) (y : V), (((j ≥ (0 : Int)) ∧ (j ≤ (len_ s)) ∧ (i ≥ (0 : Int)) ∧ (i < j)) → ((upd_ (ins_ s j x) i y) = (ins_ (upd_ s i y) j x)))
def a_rw_upd_ins_gt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V) (y : V), (((j ≥ (0 : Int)) ∧ (j < i) ∧ (i ≤ (len_ s))) → ((upd_ (ins_ s j x) i y) = (ins_ (upd_ s (i - (1 : Int)) y) j x)))
def a_rw_upd_rem_lt (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (y : V), ((((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (i ≥ (0 : Int)) ∧ (i < j)) → ((upd_ (rem_ s j) i y) = (rem_ (upd_ s i y) j)))
def a_rw_upd_rem_ge (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (y : V), ((((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (j ≤ i) ∧ (i < ((len_ s) - (1 : Int)))) → ((upd_ (rem_ s j) i y) = (rem_ (upd_ s (i + (1 : Int)) y) j)))
def a_rw_rem_upd (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((rem_ (upd_ s i x) i) = (rem_ s i)))
def a_rw_rem_upd_upd (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (j : Int) (x : V) (y : V), ((((i ≥ (0 : Int)) ∧ (i < (len_ s))) ∧ ((j ≥ (0 : Int)) ∧ (j < (len_ s))) ∧ (i ≠ j)) → ((rem_ (upd_ (upd_ s i x) j y) i) = (rem_ (upd_ s j y) i)))
def a_rw_rem_ins (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i ≤ (len_ s))) → ((rem_ (ins_ s i x) i) = s))
def a_rw_ins_rem (V : Type) [Ctx V] : Prop := ∀ (s : List V) (i : Int) (x : V), (((i ≥ (0 : Int)) ∧ (i < (len_ s))) → ((ins_ (rem_ s i) i x) = (upd_ s i x)))
end SC.Ax
