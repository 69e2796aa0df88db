/- Counting facts used by the contracts of the validity checks.
   no_enter: if no link leaves a set and every vertex has as many links to it as from it, none enters it.
   zeros_store: marking one unmarked vertex lowers the number of unmarked vertices by one. -/
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Fintype.BigOperators
import Mathlib.Tactic.Linarith
open Finset

theorem no_enter {n D : ℕ} (nb : Fin D → Fin n → Fin n) (A : Finset (Fin n))
    (reg : ∀ x, (univ.filter (fun p : Fin D × Fin n => nb p.1 p.2 = x)).card = D)
    (closed : ∀ q, ∀ x ∈ A, nb q x ∈ A) : ∀ q x, nb q x ∈ A → x ∈ A := by
  classical
  -- links into A, and links from A
  let I : Finset (Fin D × Fin n) := univ.filter (fun p => nb p.1 p.2 ∈ A)
  let F : Finset (Fin D × Fin n) := univ ×ˢ A
  have hI : I.card = A.card * D := by
    have : I.card = ∑ x ∈ A, (I.filter (fun p => nb p.1 p.2 = x)).card :=
      Finset.card_eq_sum_card_fiberwise (fun p hp => by
        have := (Finset.mem_filter.mp hp).2
        simpa using this)
    rw [this]
    have : ∀ x ∈ A, (I.filter (fun p => nb p.1 p.2 = x)).card = D := by
      intro x hx
      refine Eq.trans ?_ (reg x)
      congr 1
      ext p
      simp only [I, mem_filter, mem_univ, true_and]
      constructor
      · exact fun h => h.2
      · intro h; exact ⟨h ▸ hx, h⟩
    rw [Finset.sum_congr rfl this]
    simp
  have hF : F.card = A.card * D := by
    simp only [F, Finset.card_product, Finset.card_univ, Fintype.card_fin]
    exact Nat.mul_comm _ _
  have hsub : F ⊆ I := by
    intro p hp
    have := (Finset.mem_product.mp hp).2
    simp only [I, mem_filter, mem_univ, true_and]
    exact closed _ _ this
  have heq : F = I := Finset.eq_of_subset_of_card_le hsub (by rw [hI, hF])
  intro q x hx
  have : (q, x) ∈ I := by simp [I, hx]
  rw [← heq] at this
  exact (Finset.mem_product.mp this).2

theorem zeros_store {n : ℕ} (a : ℕ → ℤ) (i : ℕ) (y : ℤ) (hi : i < n) (h0 : a i = 0) (hy : y ≠ 0) :
    ((range n).filter (fun k => Function.update a i y k = 0)).card + 1
      = ((range n).filter (fun k => a k = 0)).card := by
  have : (range n).filter (fun k => Function.update a i y k = 0)
      = ((range n).filter (fun k => a k = 0)).erase i := by
    ext k
    simp only [mem_filter, mem_range, mem_erase]
    by_cases hk : k = i
    · subst hk; simp [hy]
    · simp [hk]
  rw [this]
  exact Finset.card_erase_add_one (by simp [hi, h0])

theorem zeros_le {n : ℕ} (a : ℕ → ℤ) : ((range n).filter (fun k => a k = 0)).card ≤ n := by
  simpa using Finset.card_filter_le (range n) (fun k => a k = 0)
#print axioms no_enter
#print axioms zeros_store
#print axioms zeros_le
