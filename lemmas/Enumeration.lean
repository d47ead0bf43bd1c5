/-  The three facts about finite sequences that contracts/enumeration.py assumes about the numbers of an enumeration.
    p j is the number of item j, n the number of items. -/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring

open Finset

/-- every number 0..n-1 is given to exactly one item -/
def Permutation (n : ℕ) (p : ℕ → ℤ) : Prop :=
  (∀ j, j < n → 0 ≤ p j ∧ p j < n) ∧ (∀ i j, i < j → j < n → p i ≠ p j)

/-- as Python indexes a list of n slots -/
def slot (n : ℕ) (p : ℕ → ℤ) (j : ℕ) : ℤ := if p j < 0 then p j + n else p j

theorem image_eq (n : ℕ) (p : ℕ → ℤ) (h : Permutation n p) :
    (range n).image (fun j => (p j).toNat) = range n := by
  apply eq_of_subset_of_card_le
  · intro x hx
    obtain ⟨j, hj, rfl⟩ := mem_image.mp hx
    have := h.1 j (mem_range.mp hj)
    rw [mem_range]; omega
  · rw [card_image_of_injOn]
    intro i hi j hj hij
    have hi' := h.1 i (by simpa using hi)
    have hj' := h.1 j (by simpa using hj)
    have e : p i = p j := by simp only at hij; omega
    by_contra hne
    rcases Nat.lt_or_gt_of_ne hne with l | l
    · exact h.2 i j l (by simpa using hj) e
    · exact h.2 j i l (by simpa using hi) e.symm

theorem onto (n : ℕ) (p : ℕ → ℤ) (h : Permutation n p) :
    ∀ s : ℤ, 0 ≤ s → s < n → ∃ j, j < n ∧ p j = s := by
  intro s h0 hn
  have : s.toNat ∈ (range n).image (fun j => (p j).toNat) := by
    rw [image_eq n p h, mem_range]; omega
  obtain ⟨j, hj, e⟩ := mem_image.mp this
  refine ⟨j, mem_range.mp hj, ?_⟩
  have := h.1 j (mem_range.mp hj)
  omega

theorem sum_of_permutation (n : ℕ) (p : ℕ → ℤ) (h : Permutation n p) :
    ∑ j ∈ range n, p j = ∑ j ∈ range n, (j : ℤ) := by
  have inj : Set.InjOn (fun j => (p j).toNat) (range n : Set ℕ) := by
    apply injOn_of_card_image_eq
    rw [image_eq n p h]
  have e : ∑ j ∈ range n, (j : ℤ) = ∑ j ∈ (range n).image (fun j => (p j).toNat), (j : ℤ) := by
    rw [image_eq n p h]
  rw [e, sum_image inj]
  apply sum_congr rfl
  intro j hj
  have := h.1 j (mem_range.mp hj)
  omega

/-- items in different slots whose numbers add up to 0+1+..+(n-1): no number is negative -/
theorem no_negative_number (n : ℕ) (p : ℕ → ℤ)
    (r : ∀ j, j < n → -(n : ℤ) ≤ p j ∧ p j < n)
    (d : ∀ i j, i < j → j < n → slot n p i ≠ slot n p j)
    (e : ∑ j ∈ range n, p j = ∑ j ∈ range n, (j : ℤ)) : Permutation n p := by
  have hs : Permutation n (slot n p) := by
    refine ⟨?_, d⟩
    intro j hj
    have := r j hj
    unfold slot
    split <;> omega
  have hsum := sum_of_permutation n (slot n p) hs
  have z : ∑ j ∈ range n, (slot n p j - p j) = 0 := by
    rw [sum_sub_distrib, hsum, e]; simp
  have nn : ∀ j ∈ range n, 0 ≤ slot n p j - p j := by
    intro j _
    unfold slot
    split <;> simp
  have all0 := (sum_eq_zero_iff_of_nonneg nn).mp z
  have same : ∀ j, j < n → slot n p j = p j := by
    intro j hj
    have := all0 j (mem_range.mpr hj)
    linarith
  refine ⟨?_, ?_⟩
  · intro j hj
    have := hs.1 j hj
    rw [same j hj] at this
    exact this
  · intro i j hij hj
    have := hs.2 i j hij hj
    rw [same i (by omega), same j hj] at this
    exact this

/-- 0+1+..+(n-1) -/
theorem triangle (n : ℕ) : 2 * ∑ j ∈ range n, (j : ℤ) = n * (n - 1) := by
  induction n with
  | zero => simp
  | succ k ih => rw [sum_range_succ, mul_add, ih]; push_cast; ring

#print axioms no_negative_number
#print axioms onto
#print axioms sum_of_permutation
#print axioms triangle
