/-
Consequences of the contracts of the LDL' factorisation (units ldlt:*): with pivots
U(i,j) = A(i,j) - sum_{k<j} U(i,k) U(j,k) / U(k,k)  (j <= i) computed on the lower triangle of a symmetric A,
positive pivots mean that A is positive definite and R'R = A; the first pivot <= 0, with the vector solved
from the triangular system, certifies that A is not positive definite.
-/
import Mathlib
open Finset
noncomputable section
namespace Ldlt

/-- the quadratic form of the leading m x m block -/
def q (A : ℕ → ℕ → ℝ) (v : ℕ → ℝ) (m : ℕ) : ℝ := ∑ i ∈ range m, ∑ j ∈ range m, v i * A i j * v j
/-- lower triangular part of U, as rows of a triangular factor -/
def c (U : ℕ → ℕ → ℝ) (k i : ℕ) : ℝ := if k ≤ i then U i k else 0

variable {A U : ℕ → ℕ → ℝ} {m : ℕ}

theorem entry (hU : ∀ i < m, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hp : ∀ k, k + 1 < m → U k k ≠ 0) {i j : ℕ} (hi : i < m) (hj : j ≤ i) :
    A i j = ∑ k ∈ range m, c U k i * c U k j / U k k := by
  have h := hU i hi j hj
  have hs : ∑ k ∈ range m, c U k i * c U k j / U k k = ∑ k ∈ range (j + 1), U i k * U j k / U k k := by
    rw [← Finset.sum_subset (s₁ := range (j + 1)) (s₂ := range m)]
    · apply Finset.sum_congr rfl
      intro k hk
      have : k ≤ j := by simpa [Nat.lt_succ_iff] using hk
      simp [c, this, this.trans hj]
    · intro k hk; simp at hk ⊢; omega
    · intro k _ hk
      have : ¬ k ≤ j := by simpa using hk
      simp [c, this]
  rw [hs, Finset.sum_range_succ]
  have hd : U i j * U j j / U j j = U i j := by
    by_cases h0 : U j j = 0
    · have hji : ¬ j + 1 < m := fun hlt => hp j hlt h0
      have : i = j := by omega
      subst this; simp [h0]
    · field_simp
  rw [hd, h]; ring

theorem entry' (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < m, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hp : ∀ k, k + 1 < m → U k k ≠ 0) {i j : ℕ} (hi : i < m) (hj : j < m) :
    A i j = ∑ k ∈ range m, c U k i * c U k j / U k k := by
  rcases le_total j i with h | h
  · exact entry hU hp hi h
  · rw [hS, entry hU hp hj h]
    exact Finset.sum_congr rfl (fun k _ => by ring)

/-- completion of squares -/
theorem q_eq (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < m, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hp : ∀ k, k + 1 < m → U k k ≠ 0) (v : ℕ → ℝ) :
    q A v m = ∑ k ∈ range m, (∑ i ∈ range m, c U k i * v i) ^ 2 / U k k := by
  have h1 : q A v m = ∑ i ∈ range m, ∑ j ∈ range m, ∑ k ∈ range m, c U k i * v i * (c U k j * v j) / U k k := by
    unfold q
    refine Finset.sum_congr rfl fun i hi => Finset.sum_congr rfl fun j hj => ?_
    rw [entry' hS hU hp (by simpa using hi) (by simpa using hj), Finset.mul_sum, Finset.sum_mul]
    exact Finset.sum_congr rfl (fun k _ => by ring)
  rw [h1]
  have h2 : ∀ i ∈ range m, (∑ j ∈ range m, ∑ k ∈ range m, c U k i * v i * (c U k j * v j) / U k k)
      = ∑ k ∈ range m, ∑ j ∈ range m, c U k i * v i * (c U k j * v j) / U k k := fun i _ => Finset.sum_comm
  rw [Finset.sum_congr rfl h2, Finset.sum_comm]
  refine Finset.sum_congr rfl fun k _ => ?_
  rw [pow_two, Finset.sum_mul_sum, Finset.sum_div]
  exact Finset.sum_congr rfl fun i _ => by rw [Finset.sum_div]

/-- acceptance: positive pivots make the form positive -/
theorem accept (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < m, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hpos : ∀ k < m, 0 < U k k) (v : ℕ → ℝ) (hv : ∃ i < m, v i ≠ 0) : 0 < q A v m := by
  rw [q_eq hS hU (fun k hk => (hpos k (by omega)).ne') v]
  obtain ⟨i0, hi0, hvi0⟩ := hv
  have hne : ((range m).filter (fun i => v i ≠ 0)).Nonempty := ⟨i0, by simp [hi0, hvi0]⟩
  obtain ⟨p, hp, hmax⟩ := Finset.exists_max_image _ id hne
  simp only [mem_filter, mem_range, id] at hp hmax
  have hy : ∑ i ∈ range m, c U p i * v i = U p p * v p := by
    rw [Finset.sum_eq_single p]
    · simp [c]
    · intro b hb hbp
      by_cases h : v b = 0
      · simp [h]
      · have := hmax b ⟨by simpa using hb, h⟩
        have : ¬ p ≤ b := by omega
        simp [c, this]
    · intro h; simp [hp.1] at h
  apply Finset.sum_pos'
  · intro k hk; exact div_nonneg (sq_nonneg _) (hpos k (by simpa using hk)).le
  · refine ⟨p, by simpa using hp.1, ?_⟩
    rw [hy]
    have := hpos p hp.1
    have h2 := hp.2
    positivity

/-- rejection: the vector solved from the triangular system has v'Av = the failing pivot -/
theorem witness {p : ℕ} (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < p + 1, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hpos : ∀ k < p, 0 < U k k) (v : ℕ → ℝ) (hvp : v p = 1)
    (hv : ∀ i < p, v i = -∑ k ∈ Ico (i + 1) (p + 1), U k i / U i i * v k) : q A v (p + 1) = U p p := by
  rw [q_eq hS hU (fun k hk => (hpos k (by omega)).ne') v, Finset.sum_eq_single p]
  · have : ∑ i ∈ range (p + 1), c U p i * v i = U p p := by
      rw [Finset.sum_eq_single p]
      · simp [c, hvp]
      · intro b hb hbp
        have : ¬ p ≤ b := by simp at hb; omega
        simp [c, this]
      · intro h; simp at h
    rw [this]
    by_cases h0 : U p p = 0
    · simp [h0]
    · field_simp
  · intro k hk hkp
    have hk' : k < p := by simp at hk; omega
    have h0 := (hpos k hk').ne'
    have : ∑ i ∈ range (p + 1), c U k i * v i = 0 := by
      rw [← Finset.sum_subset (s₁ := Ico k (p + 1)) (s₂ := range (p + 1))]
      · rw [Finset.sum_eq_sum_Ico_succ_bot (by omega)]
        have : ∑ i ∈ Ico (k + 1) (p + 1), c U k i * v i = U k k * ∑ i ∈ Ico (k + 1) (p + 1), U i k / U k k * v i := by
          rw [Finset.mul_sum]
          refine Finset.sum_congr rfl fun i hi => ?_
          have : k ≤ i := by simp at hi; omega
          simp [c, this]; field_simp
        rw [this, hv k hk']
        simp [c]
      · intro i hi; simp at hi ⊢; omega
      · intro i _ hi
        have : ¬ k ≤ i := by simp at hi; simp_all; omega
        simp [c, this]
    rw [this]; simp
  · intro h; simp at h

/-- hence A is not positive definite -/
theorem reject {p n : ℕ} (hpn : p < n) (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < p + 1, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hpos : ∀ k < p, 0 < U k k) (hle : U p p ≤ 0) (v : ℕ → ℝ) (hvp : v p = 1)
    (hz : ∀ i, p < i → v i = 0)
    (hv : ∀ i < p, v i = -∑ k ∈ Ico (i + 1) (p + 1), U k i / U i i * v k) :
    (∃ i < n, v i ≠ 0) ∧ q A v n ≤ 0 := by
  refine ⟨⟨p, hpn, by simp [hvp]⟩, ?_⟩
  have hw := witness hS hU hpos v hvp hv
  have : q A v n = q A v (p + 1) := by
    unfold q
    have hin : ∀ i, ∑ j ∈ range n, v i * A i j * v j = ∑ j ∈ range (p + 1), v i * A i j * v j := by
      intro i
      symm
      apply Finset.sum_subset
      · intro k hk; simp at hk ⊢; omega
      · intro k _ hk; rw [hz k (by simp at hk; omega)]; simp
    simp only [hin]
    symm
    apply Finset.sum_subset
    · intro k hk; simp at hk ⊢; omega
    · intro k _ hk; rw [hz k (by simp at hk; omega)]; simp
  rw [this, hw]; exact hle

/-- the square root: R(i,i)^2 = U(i,i), R(i,j) R(i,i) = U(j,i), zero below the diagonal -/
theorem sqrt (R : ℕ → ℕ → ℝ) (hS : ∀ i j, A i j = A j i)
    (hU : ∀ i < m, ∀ j ≤ i, U i j = A i j - ∑ k ∈ range j, U i k * U j k / U k k)
    (hpos : ∀ k < m, 0 < U k k) (hd : ∀ i < m, R i i * R i i = U i i)
    (hR : ∀ i < m, ∀ j < m, i ≤ j → R i j * R i i = U j i) (hz : ∀ i < m, ∀ j < i, R i j = 0)
    {i j : ℕ} (hi : i < m) (hj : j < m) : ∑ k ∈ range m, R k i * R k j = A i j := by
  rw [entry' hS hU (fun k hk => (hpos k (by omega)).ne') hi hj]
  refine Finset.sum_congr rfl fun k hk => ?_
  have hk' : k < m := by simpa using hk
  have hp := hpos k hk'
  have hne : R k k ≠ 0 := by
    intro h; have := hd k hk'; rw [h] at this; simp at this; linarith
  by_cases h1 : k ≤ i
  · by_cases h2 : k ≤ j
    · simp only [c, h1, h2, if_true]
      rw [← hR k hk' i hi h1, ← hR k hk' j hj h2, ← hd k hk']
      field_simp
    · simp [c, h2, hz k hk' j (by omega)]
  · simp [c, h1, hz k hk' i (by omega)]

end Ldlt
end
#print axioms Ldlt.accept
#print axioms Ldlt.witness
#print axioms Ldlt.reject
#print axioms Ldlt.sqrt
