/-
Soundness of the cut of the matrix-inequality oracles, from the contracts of the units lmi:* and ldlt:*:
the offset is ep = -v'A(x)v >= 0 and the gradient entries are v'F_k v (affine) or -v'F_k v (homogeneous).
-/
import Mathlib
open Finset
noncomputable section
namespace Lmi

def q (A : ℕ → ℕ → ℝ) (v : ℕ → ℝ) (m : ℕ) : ℝ := ∑ i ∈ range m, ∑ j ∈ range m, v i * A i j * v j
def linear (F : ℕ → ℕ → ℕ → ℝ) (n : ℕ) (x : ℕ → ℝ) (i j : ℕ) : ℝ := ∑ k ∈ range n, F k i j * x k
def affine (B : ℕ → ℕ → ℝ) (F : ℕ → ℕ → ℕ → ℝ) (n : ℕ) (x : ℕ → ℝ) (i j : ℕ) : ℝ := B i j - linear F n x i j

theorem q_linear (F : ℕ → ℕ → ℕ → ℝ) (n m : ℕ) (x v : ℕ → ℝ) :
    q (linear F n x) v m = ∑ k ∈ range n, q (F k) v m * x k := by
  have h1 : q (linear F n x) v m = ∑ i ∈ range m, ∑ j ∈ range m, ∑ k ∈ range n, v i * F k i j * v j * x k := by
    unfold q linear
    refine Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => ?_
    rw [Finset.mul_sum, Finset.sum_mul]
    exact Finset.sum_congr rfl fun k _ => by ring
  have h2 : ∀ i ∈ range m, (∑ j ∈ range m, ∑ k ∈ range n, v i * F k i j * v j * x k)
      = ∑ k ∈ range n, ∑ j ∈ range m, v i * F k i j * v j * x k := fun i _ => Finset.sum_comm
  rw [h1, Finset.sum_congr rfl h2, Finset.sum_comm]
  refine Finset.sum_congr rfl fun k _ => ?_
  unfold q
  rw [Finset.sum_mul]
  exact Finset.sum_congr rfl fun i _ => by rw [Finset.sum_mul]

theorem q_affine (B : ℕ → ℕ → ℝ) (F : ℕ → ℕ → ℕ → ℝ) (n m : ℕ) (x v : ℕ → ℝ) :
    q (affine B F n x) v m = q B v m - ∑ k ∈ range n, q (F k) v m * x k := by
  rw [← q_linear]
  unfold q affine
  rw [← Finset.sum_sub_distrib]
  refine Finset.sum_congr rfl fun i _ => ?_
  rw [← Finset.sum_sub_distrib]
  exact Finset.sum_congr rfl fun j _ => by ring

/-- every point y whose matrix is non-negative along the witness satisfies the cut g'(y - x) + ep <= 0 -/
theorem cut_affine (B : ℕ → ℕ → ℝ) (F : ℕ → ℕ → ℕ → ℝ) (n m : ℕ) (x y v g : ℕ → ℝ) (ep : ℝ)
    (hep : q (affine B F n x) v m = -ep) (hg : ∀ k < n, g k = q (F k) v m)
    (hy : 0 ≤ q (affine B F n y) v m) : ∑ k ∈ range n, g k * (y k - x k) + ep ≤ 0 := by
  rw [q_affine] at hep hy
  have : ∑ k ∈ range n, g k * (y k - x k) = ∑ k ∈ range n, q (F k) v m * y k - ∑ k ∈ range n, q (F k) v m * x k := by
    rw [← Finset.sum_sub_distrib]
    refine Finset.sum_congr rfl fun k hk => ?_
    rw [hg k (by simpa using hk)]; ring
  rw [this]; linarith

theorem cut_linear (F : ℕ → ℕ → ℕ → ℝ) (n m : ℕ) (x y v g : ℕ → ℝ) (ep : ℝ)
    (hep : q (linear F n x) v m = -ep) (hg : ∀ k < n, g k = -q (F k) v m)
    (hy : 0 ≤ q (linear F n y) v m) : ∑ k ∈ range n, g k * (y k - x k) + ep ≤ 0 := by
  rw [q_linear] at hep hy
  have : ∑ k ∈ range n, g k * (y k - x k) = ∑ k ∈ range n, q (F k) v m * x k - ∑ k ∈ range n, q (F k) v m * y k := by
    rw [← Finset.sum_sub_distrib]
    refine Finset.sum_congr rfl fun k hk => ?_
    rw [hg k (by simpa using hk)]; ring
  rw [this]; linarith

end Lmi
end
#print axioms Lmi.cut_affine
#print axioms Lmi.cut_linear
