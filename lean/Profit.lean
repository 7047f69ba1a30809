/-
Soundness of the cuts of the profit oracles, from the contracts of the units profit:* : with q_i = p_i e^{y_i},
S = gam + q_0 + q_1 and c(z) = k + a_0 z_0 + a_1 z_1, the refusal cut by the profit constraint has gradient q_i/S - a_i and
offset ln S - c(y) > 0; the improving cut has gradient q_i/e^{c(y)} - a_i and offset 0, with the new level
gam' = e^{c(y)} - q_0 - q_1 (so that S' = e^{c(y)}).
-/
import Mathlib
noncomputable section
namespace Profit

/-- Jensen: g + p0 e^{z0} + p1 e^{z1} >= S e^m with m the weighted mean of the moves -/
theorem jensen (g p0 p1 y0 y1 z0 z1 S : ℝ) (hg : 0 ≤ g) (h0 : 0 < p0) (h1 : 0 < p1)
    (hS : S = g + p0 * Real.exp y0 + p1 * Real.exp y1) :
    S * Real.exp (p0 * Real.exp y0 / S * (z0 - y0) + p1 * Real.exp y1 / S * (z1 - y1))
      ≤ g + p0 * Real.exp z0 + p1 * Real.exp z1 := by
  have e0 := Real.exp_pos y0
  have e1 := Real.exp_pos y1
  have hq0 := mul_pos h0 e0
  have hq1 := mul_pos h1 e1
  have Sp : 0 < S := by rw [hS]; positivity
  set m := p0 * Real.exp y0 / S * (z0 - y0) + p1 * Real.exp y1 / S * (z1 - y1) with hm
  have em := Real.exp_pos m
  have key : ∀ t : ℝ, Real.exp m * (1 + (t - m)) ≤ Real.exp t := by
    intro t
    have h := Real.add_one_le_exp (t - m)
    have : Real.exp t = Real.exp m * Real.exp (t - m) := by rw [← Real.exp_add]; ring_nf
    rw [this]
    apply mul_le_mul_of_nonneg_left _ em.le
    linarith
  have k0 := key (z0 - y0)
  have k1 := key (z1 - y1)
  have kg := key 0
  rw [Real.exp_zero] at kg
  have r0 : p0 * Real.exp z0 = p0 * Real.exp y0 * Real.exp (z0 - y0) := by
    rw [mul_assoc, ← Real.exp_add]; ring_nf
  have r1 : p1 * Real.exp z1 = p1 * Real.exp y1 * Real.exp (z1 - y1) := by
    rw [mul_assoc, ← Real.exp_add]; ring_nf
  have hmS : S * m = p0 * Real.exp y0 * (z0 - y0) + p1 * Real.exp y1 * (z1 - y1) := by
    rw [hm]; field_simp
  rw [r0, r1]
  have i0 := mul_le_mul_of_nonneg_left k0 hq0.le
  have i1 := mul_le_mul_of_nonneg_left k1 hq1.le
  have ig := mul_le_mul_of_nonneg_left kg hg
  have tot : g * (Real.exp m * (1 + (0 - m))) + p0 * Real.exp y0 * (Real.exp m * (1 + (z0 - y0 - m)))
      + p1 * Real.exp y1 * (Real.exp m * (1 + (z1 - y1 - m))) = S * Real.exp m := by
    have : g = S - p0 * Real.exp y0 - p1 * Real.exp y1 := by rw [hS]; ring
    rw [this]
    linear_combination -Real.exp m * hmS
  linarith

/-- every plan z whose profit is at least the level g satisfies the cut of the profit constraint at y -/
theorem profit_cut (g p0 p1 y0 y1 z0 z1 S k a0 a1 : ℝ) (hg : 0 ≤ g) (h0 : 0 < p0) (h1 : 0 < p1)
    (hS : S = g + p0 * Real.exp y0 + p1 * Real.exp y1)
    (hz : g ≤ Real.exp (k + a0 * z0 + a1 * z1) - (p0 * Real.exp z0 + p1 * Real.exp z1)) :
    (p0 * Real.exp y0 / S - a0) * (z0 - y0) + (p1 * Real.exp y1 / S - a1) * (z1 - y1)
      + (Real.log S - (k + a0 * y0 + a1 * y1)) ≤ 0 := by
  have Sp : 0 < S := by
    have := mul_pos h0 (Real.exp_pos y0)
    have := mul_pos h1 (Real.exp_pos y1)
    rw [hS]; positivity
  have j := jensen g p0 p1 y0 y1 z0 z1 S hg h0 h1 hS
  have : Real.exp (Real.log S + (p0 * Real.exp y0 / S * (z0 - y0) + p1 * Real.exp y1 / S * (z1 - y1)))
      ≤ Real.exp (k + a0 * z0 + a1 * z1) := by
    rw [Real.exp_add, Real.exp_log Sp]; linarith
  have := Real.exp_le_exp.mp this
  linarith

/-- the improving cut: every plan at least as good as y satisfies it -/
theorem improving_cut (g' p0 p1 y0 y1 z0 z1 k a0 a1 : ℝ) (hg : 0 ≤ g') (h0 : 0 < p0) (h1 : 0 < p1)
    (hg' : g' = Real.exp (k + a0 * y0 + a1 * y1) - (p0 * Real.exp y0 + p1 * Real.exp y1))
    (hz : g' ≤ Real.exp (k + a0 * z0 + a1 * z1) - (p0 * Real.exp z0 + p1 * Real.exp z1)) :
    (p0 * Real.exp y0 / Real.exp (k + a0 * y0 + a1 * y1) - a0) * (z0 - y0)
      + (p1 * Real.exp y1 / Real.exp (k + a0 * y0 + a1 * y1) - a1) * (z1 - y1) ≤ 0 := by
  have h := profit_cut g' p0 p1 y0 y1 z0 z1 (Real.exp (k + a0 * y0 + a1 * y1)) k a0 a1 hg h0 h1 (by rw [hg']; ring) hz
  rw [Real.log_exp] at h
  linarith

/-- the limit's cut: every plan within the limit satisfies it -/
theorem limit_cut (y0 y1 z0 z1 l : ℝ) (hz : z0 ≤ l) : 1 * (z0 - y0) + 0 * (z1 - y1) + (y0 - l) ≤ 0 := by linarith

/-- re-basing a cut at d to the centre y describes the same half-space -/
theorem rebase (g0 g1 d0 d1 y0 y1 z0 z1 b : ℝ) :
    g0 * (z0 - y0) + g1 * (z1 - y1) + (b + (g0 * (y0 - d0) + g1 * (y1 - d1))) = g0 * (z0 - d0) + g1 * (z1 - d1) + b := by ring

end Profit
end
