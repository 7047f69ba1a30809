import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.Analysis.MeanInequalities
import Mathlib.LinearAlgebra.Matrix.PosDef

open Matrix

noncomputable section
namespace Ell
variable {n : ℕ}
abbrev V (n : ℕ) := Fin n → ℝ
abbrev Mat (n : ℕ) := Matrix (Fin n) (Fin n) ℝ

/-- the ellipsoid with centre `xc` and shape `κ M` -/
def mem (M : Mat n) (κ : ℝ) (xc x : V n) : Prop :=
  ∃ u : V n, x = xc + M *ᵥ u ∧ u ⬝ᵥ (M *ᵥ u) ≤ κ

/-- result of a successful cut, as established for the code by the `ell:` units -/
def upd (M : Mat n) (g : V n) (ω σ : ℝ) : Mat n :=
  M - (σ / ω) • vecMulVec (M *ᵥ g) (M *ᵥ g)

theorem symm_dot (M : Mat n) (hM : M.IsSymm) (u v : V n) : u ⬝ᵥ (M *ᵥ v) = v ⬝ᵥ (M *ᵥ u) := by
  rw [dotProduct_mulVec, ← mulVec_transpose, hM.eq, dotProduct_comm]

theorem upd_mulVec (M : Mat n) (g : V n) (ω σ : ℝ) (w : V n) :
    upd M g ω σ *ᵥ w = M *ᵥ w - ((σ / ω) * ((M *ᵥ g) ⬝ᵥ w)) • (M *ᵥ g) := by
  unfold upd
  rw [sub_mulVec, smul_mulVec, vecMulVec_mulVec]
  simp [smul_smul]

/-- Cauchy–Schwarz in the metric of a positive semidefinite matrix -/
theorem cs (M : Mat n) (hM : M.IsSymm) (hp : ∀ w : V n, 0 ≤ w ⬝ᵥ (M *ᵥ w))
    (g u : V n) (ω : ℝ) (hω : ω = g ⬝ᵥ (M *ᵥ g)) (h0 : 0 < ω) :
    (g ⬝ᵥ (M *ᵥ u)) ^ 2 ≤ ω * (u ⬝ᵥ (M *ᵥ u)) := by
  set s := g ⬝ᵥ (M *ᵥ u) with hs
  have h := hp (u - (s / ω) • g)
  rw [mulVec_sub, mulVec_smul, sub_dotProduct, dotProduct_sub, dotProduct_sub, smul_dotProduct,
    smul_dotProduct, dotProduct_smul, dotProduct_smul, symm_dot M hM u g, ← hs, ← hω] at h
  simp only [smul_eq_mul] at h
  have : 0 ≤ ω * (u ⬝ᵥ (M *ᵥ u) - s / ω * s - (s / ω * s - s / ω * (s / ω * ω))) :=
    mul_nonneg h0.le h
  have e : ω * (u ⬝ᵥ (M *ᵥ u) - s / ω * s - (s / ω * s - s / ω * (s / ω * ω)))
      = ω * (u ⬝ᵥ (M *ᵥ u)) - s ^ 2 := by field_simp; ring
  linarith [e ▸ this]

/-- convexity: a bound at both ends of an interval holds inside -/
theorem endpoints (τ2 σ ρ K a b s : ℝ) (hσ : 0 ≤ σ) (ha : a ≤ s) (hb : s ≤ b)
    (fa : (τ2 - a ^ 2) * (1 - σ) + (a + ρ) ^ 2 ≤ K) (fb : (τ2 - b ^ 2) * (1 - σ) + (b + ρ) ^ 2 ≤ K) :
    (τ2 - s ^ 2) * (1 - σ) + (s + ρ) ^ 2 ≤ K := by
  rcases eq_or_lt_of_le (ha.trans hb) with h | h
  · have : s = a := le_antisymm (h ▸ hb) ha
    rw [this]; exact fa
  · have hp : 0 ≤ σ * ((s - a) * (b - s)) := mul_nonneg hσ (mul_nonneg (by linarith) (by linarith))
    have h1 := mul_le_mul_of_nonneg_left fa (by linarith : 0 ≤ b - s)
    have h2 := mul_le_mul_of_nonneg_left fb (by linarith : 0 ≤ s - a)
    have hba : 0 < b - a := by linarith
    have key : (b - a) * ((τ2 - s ^ 2) * (1 - σ) + (s + ρ) ^ 2) ≤ (b - a) * K := by
      nlinarith [mul_nonneg hba.le hp]
    exact le_of_mul_le_mul_left key hba

/-- a cut whose parameters satisfy the calculator's contract keeps every point it allows -/
theorem contain (M : Mat n) (hM : M.IsSymm) (hp : ∀ w : V n, 0 ≤ w ⬝ᵥ (M *ᵥ w))
    (g xc x : V n) (κ ω ρ σ δ a b : ℝ) (hω : ω = g ⬝ᵥ (M *ᵥ g)) (h0 : 0 < ω) (hσ : 0 ≤ σ) (hσ1 : σ < 1)
    (ha : a = -Real.sqrt (κ * ω) ∨ a ≤ g ⬝ᵥ (x - xc)) (hb : g ⬝ᵥ (x - xc) ≤ b)
    (fa : (κ * ω - a ^ 2) * (1 - σ) + (a + ρ) ^ 2 ≤ δ * (κ * ω) * (1 - σ))
    (fb : (κ * ω - b ^ 2) * (1 - σ) + (b + ρ) ^ 2 ≤ δ * (κ * ω) * (1 - σ))
    (hx : mem M κ xc x) : mem (upd M g ω σ) (δ * κ) (xc - (ρ / ω) • (M *ᵥ g)) x := by
  obtain ⟨u, hu, hq⟩ := hx
  have hs' : g ⬝ᵥ (x - xc) = g ⬝ᵥ (M *ᵥ u) := by rw [hu]; congr 1; abel
  rw [hs'] at ha hb
  set s := g ⬝ᵥ (M *ᵥ u) with hs
  set q := u ⬝ᵥ (M *ᵥ u) with hqd
  have h1σ : 0 < 1 - σ := by linarith
  have hcs : s ^ 2 ≤ ω * q := cs M hM hp g u ω hω h0
  have hsa : a ≤ s := by
    rcases ha with h | h
    · rw [h]
      have : s ^ 2 ≤ κ * ω := by nlinarith
      exact (abs_le.mp (Real.abs_le_sqrt this)).1
    · exact h
  have f := endpoints (κ * ω) σ ρ _ a b s hσ hsa hb fa fb
  have hMg : (M *ᵥ g) ⬝ᵥ u = s := by rw [dotProduct_comm, symm_dot M hM u g]
  have hMgg : (M *ᵥ g) ⬝ᵥ g = ω := by rw [dotProduct_comm, ← hω]
  set c := σ * (s + ρ) / ((1 - σ) * ω) with hc
  have hMu' : (M *ᵥ g) ⬝ᵥ (u + (ρ / ω + c) • g) = (s + ρ) / (1 - σ) := by
    rw [dotProduct_add, dotProduct_smul, hMg, hMgg, smul_eq_mul, hc]; field_simp; ring
  have hM' : upd M g ω σ *ᵥ (u + (ρ / ω + c) • g) = M *ᵥ u + (ρ / ω) • (M *ᵥ g) := by
    rw [upd_mulVec, hMu', mulVec_add, mulVec_smul, add_sub_assoc, ← sub_smul]
    congr 2
    rw [hc]; field_simp; ring
  refine ⟨u + (ρ / ω + c) • g, ?_, ?_⟩
  · rw [hM', hu]; abel
  · rw [hM', dotProduct_add, add_dotProduct, add_dotProduct, smul_dotProduct, smul_dotProduct,
      dotProduct_smul, dotProduct_smul, ← hqd, ← hs, symm_dot M hM u g, ← hs, ← hω]
    simp only [smul_eq_mul]
    have e : ω * (1 - σ) * (q + (ρ / ω + c) * s + (ρ / ω * s + (ρ / ω + c) * (ρ / ω * ω)))
        = (q * ω - s ^ 2) * (1 - σ) + (s + ρ) ^ 2 := by rw [hc]; field_simp; ring
    have hpos : 0 < ω * (1 - σ) := mul_pos h0 h1σ
    refine le_of_mul_le_mul_left ?_ hpos
    rw [e]
    nlinarith [mul_nonneg (mul_nonneg h0.le h1σ.le) (sub_nonneg.mpr hq)]

/-- scaling: `(κ M, 1)` and `(M, κ)` describe the same ellipsoid (deferred factor) -/
theorem mem_scale (M : Mat n) (κ : ℝ) (hκ : 0 < κ) (xc x : V n) :
    mem (κ • M) 1 xc x ↔ mem M κ xc x := by
  constructor
  · rintro ⟨u, h1, h2⟩
    refine ⟨κ • u, by rw [h1, smul_mulVec, mulVec_smul], ?_⟩
    rw [smul_mulVec, dotProduct_smul] at h2
    rw [mulVec_smul, dotProduct_smul, smul_dotProduct]
    simp only [smul_eq_mul] at *
    nlinarith
  · rintro ⟨u, h1, h2⟩
    refine ⟨κ⁻¹ • u, by rw [h1, smul_mulVec, mulVec_smul, smul_smul, mul_inv_cancel₀ hκ.ne', one_smul], ?_⟩
    rw [smul_mulVec, mulVec_smul, smul_smul, mul_inv_cancel₀ hκ.ne', one_smul, smul_dotProduct]
    simp only [smul_eq_mul]
    rw [inv_mul_le_iff₀ hκ]; linarith

theorem upd_symm (M : Mat n) (hM : M.IsSymm) (g : V n) (ω σ : ℝ) : (upd M g ω σ).IsSymm := by
  unfold upd
  ext i j
  simp [vecMulVec_apply, transpose_apply, hM.apply i j, mul_comm]

/-- positive definiteness is preserved -/
theorem upd_pos (M : Mat n) (hM : M.IsSymm) (hp : ∀ w : V n, w ≠ 0 → 0 < w ⬝ᵥ (M *ᵥ w))
    (g : V n) (ω σ : ℝ) (hω : ω = g ⬝ᵥ (M *ᵥ g)) (h0 : 0 < ω) (hσ : 0 ≤ σ) (hσ1 : σ < 1) (w : V n) (hw : w ≠ 0) :
    0 < w ⬝ᵥ (upd M g ω σ *ᵥ w) := by
  have hp' : ∀ w : V n, 0 ≤ w ⬝ᵥ (M *ᵥ w) := by
    intro w; by_cases h : w = 0
    · simp [h]
    · exact (hp w h).le
  have hcs := cs M hM hp' g w ω hω h0
  have hpw := hp w hw
  rw [upd_mulVec, dotProduct_sub, dotProduct_smul, smul_eq_mul, dotProduct_comm (M *ᵥ g) w,
    symm_dot M hM w g]
  have e : w ⬝ᵥ (M *ᵥ w) - σ / ω * (g ⬝ᵥ (M *ᵥ w)) * (g ⬝ᵥ (M *ᵥ w))
      = (ω * (w ⬝ᵥ (M *ᵥ w)) - σ * (g ⬝ᵥ (M *ᵥ w)) ^ 2) / ω := by field_simp
  rw [e]
  apply div_pos _ h0
  nlinarith [mul_le_mul_of_nonneg_left hcs hσ, mul_pos h0 hpw]

/-- determinant of the new shape -/
theorem upd_det (M : Mat n) (hM : M.IsSymm) (hd : IsUnit M.det) (g : V n) (ω σ : ℝ)
    (hω : ω = g ⬝ᵥ (M *ᵥ g)) (h0 : 0 < ω) : (upd M g ω σ).det = (1 - σ) * M.det := by
  have e : upd M g ω σ = M * (1 - (σ / ω) • vecMulVec g (M *ᵥ g)) := by
    unfold upd
    rw [mul_sub, mul_one, Matrix.mul_smul, mul_vecMulVec]
  have h2 : (1 - (σ / ω) • vecMulVec g (M *ᵥ g) : Mat n)
      = 1 + replicateCol Unit (-(σ / ω) • g) * replicateRow Unit (M *ᵥ g) := by
    rw [← vecMulVec_eq, smul_vecMulVec, neg_smul, sub_eq_add_neg]
  rw [e, det_mul, h2, det_one_add_replicateCol_mul_replicateRow, dotProduct_smul,
    dotProduct_comm, ← hω, smul_eq_mul]
  field_simp
  ring

/-- the squared volume ratio `δ^n (1-σ)` of a successful cut is below one -/
theorem volume_lt (n : ℕ) (hn : 2 ≤ n) (σ δ : ℝ) (hσ : 0 < σ) (hσ1 : σ < 1) (hδ : 0 < δ)
    (h : δ * (n - σ) ≤ n) : δ ^ n * (1 - σ) < 1 := by
  have hn0 : (0 : ℝ) < n := by positivity
  have hn2 : (2 : ℝ) ≤ n := by exact_mod_cast hn
  -- Bernoulli in the form 1 - σ < (1 - σ/n)^n
  have hdn : σ / n ≤ 1 := by rw [div_le_one hn0]; linarith
  have hdn0 : 0 < σ / n := div_pos hσ hn0
  have hb' : 1 - σ < (1 - σ / n) ^ n := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    have hm : (1 : ℝ) ≤ m := by push_cast at hn2; linarith
    have b1 := one_add_mul_le_pow (a := -(σ / ((m + 1 : ℕ) : ℝ))) (by linarith) m
    have e2 : (1 : ℝ) + -(σ / ((m + 1 : ℕ) : ℝ)) = 1 - σ / ((m + 1 : ℕ) : ℝ) := by ring
    rw [e2] at b1
    rw [pow_succ]
    set t := σ / ((m + 1 : ℕ) : ℝ) with ht
    have es : σ = t * (m + 1) := by rw [ht]; push_cast; field_simp
    have h1t : 0 < 1 - t := by
      have : t < 1 := by rw [ht, div_lt_one hn0]; linarith
      linarith
    have := mul_le_mul_of_nonneg_right b1 h1t.le
    nlinarith [mul_pos (mul_pos hdn0 hdn0) (by linarith : (0 : ℝ) < m)]
  have hle : δ * (1 - σ / n) ≤ 1 := by
    have : δ * (1 - σ / n) = δ * (n - σ) / n := by field_simp
    rw [this, div_le_one hn0]; exact h
  have hnn : 0 ≤ δ * (1 - σ / n) := mul_nonneg hδ.le (by linarith)
  calc δ ^ n * (1 - σ) < δ ^ n * (1 - σ / n) ^ n := by
        apply mul_lt_mul_of_pos_left hb' (pow_pos hδ n)
    _ = (δ * (1 - σ / n)) ^ n := (mul_pow _ _ _).symm
    _ ≤ 1 := pow_le_one₀ hnn hle

/-- determinant of the scaled shape: squared volume -/
theorem volume (M : Mat n) (hM : M.IsSymm) (hd : 0 < M.det) (g : V n) (κ ω σ δ : ℝ) (hn : 2 ≤ n)
    (hω : ω = g ⬝ᵥ (M *ᵥ g)) (h0 : 0 < ω) (hκ : 0 < κ) (hσ : 0 < σ) (hσ1 : σ < 1) (hδ : 0 < δ)
    (h : δ * (n - σ) ≤ n) : ((δ * κ) • upd M g ω σ).det < (κ • M).det := by
  rw [det_smul, det_smul, upd_det M hM (isUnit_iff_ne_zero.mpr hd.ne') g ω σ hω h0]
  have hv := volume_lt n hn σ δ hσ hσ1 hδ h
  simp only [Fintype.card_fin, mul_pow]
  have hpos : 0 < κ ^ n * M.det := mul_pos (pow_pos hκ n) hd
  calc δ ^ n * κ ^ n * ((1 - σ) * M.det) = (δ ^ n * (1 - σ)) * (κ ^ n * M.det) := by ring
    _ < 1 * (κ ^ n * M.det) := mul_lt_mul_of_pos_right hv hpos
    _ = κ ^ n * M.det := one_mul _

end Ell

/-! The factored representation: the inverse shape is `L D⁻¹ Lᵀ` with `L` unit lower triangular. -/
namespace Stable
open Finset Ell
variable {n : ℕ} {L : ℕ → ℕ → ℝ} {d g y z : ℕ → ℝ} {r : ℝ}

/-- entries of the inverse shape `L D⁻¹ Lᵀ` -/
def N (n : ℕ) (L : ℕ → ℕ → ℝ) (d : ℕ → ℝ) (a b : ℕ) : ℝ := ∑ j ∈ range n, L a j * L b j / d j
def T (d y : ℕ → ℝ) (r : ℝ) (j : ℕ) : ℝ := 1 + r * ∑ k ∈ range j, d k * y k * y k
def R (L : ℕ → ℕ → ℝ) (g y : ℕ → ℝ) (j l : ℕ) : ℝ := g l - ∑ k ∈ range j, L l k * y k
/-- the new factors, as established for the code by the `stable:` units -/
def L' (L : ℕ → ℕ → ℝ) (d g y : ℕ → ℝ) (r : ℝ) (a j : ℕ) : ℝ :=
  L a j + r * d j * y j / T d y r (j + 1) * R L g y (j + 1) a
def d' (d y : ℕ → ℝ) (r : ℝ) (j : ℕ) : ℝ := d j * (T d y r j / T d y r (j + 1))

theorem R_zero (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j) {l j : ℕ} (hl : l < n) (hj : l < j) :
    R L g y j l = 0 := by
  have e : ∑ k ∈ range j, L l k * y k = ∑ k ∈ range (l + 1), L l k * y k := by
    symm
    apply sum_subset (range_subset_range.mpr (by omega))
    intro k _ hk
    rw [h0 l hl k (by simpa using hk), zero_mul]
  unfold R
  rw [e, sum_range_succ, h1 l hl]
  linarith [hy l hl]

theorem L'_diag (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j) {i : ℕ} (hi : i < n) :
    L' L d g y r i i = 1 := by
  simp [L', R_zero h1 h0 hy hi (Nat.lt_succ_self i), h1 i hi]

theorem L'_upper (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j) {i j : ℕ} (hi : i < n) (hij : i < j) :
    L' L d g y r i j = 0 := by
  simp [L', R_zero h1 h0 hy hi (by omega : i < j + 1), h0 i hi j hij]

theorem T_pos (hr : 0 ≤ r) (hd : ∀ i < n, 0 < d i) {j : ℕ} (hj : j ≤ n) : 0 < T d y r j := by
  have : 0 ≤ ∑ k ∈ range j, d k * y k * y k := by
    apply sum_nonneg
    intro k hk
    have := hd k (by have := mem_range.mp hk; omega)
    nlinarith [mul_self_nonneg (y k)]
  unfold T
  nlinarith [mul_nonneg hr this]

theorem d'_pos (hr : 0 ≤ r) (hd : ∀ i < n, 0 < d i) {j : ℕ} (hj : j < n) : 0 < d' d y r j :=
  mul_pos (hd j hj) (div_pos (T_pos hr hd hj.le) (T_pos hr hd hj))

theorem step (hr : 0 ≤ r) (hd : ∀ i < n, 0 < d i) {j : ℕ} (hj : j < n) (a b : ℕ) :
    L a j * L b j / d j + r / T d y r j * (R L g y j a * R L g y j b)
      = L' L d g y r a j * L' L d g y r b j / d' d y r j
        + r / T d y r (j + 1) * (R L g y (j + 1) a * R L g y (j + 1) b) := by
  have ht := T_pos (y := y) hr hd hj.le
  have ht' := T_pos (y := y) hr hd (Nat.succ_le_of_lt hj)
  have hdj := hd j hj
  have eT : T d y r (j + 1) = T d y r j + r * d j * (y j * y j) := by
    simp only [T, sum_range_succ]; ring
  have eR : ∀ l, R L g y (j + 1) l = R L g y j l - L l j * y j := by
    intro l; simp only [R, sum_range_succ]; ring
  simp only [L', d', eR]
  set t := T d y r j with hT
  set t' := T d y r (j + 1) with hT'
  have e : ∀ l, L l j + r * d j * y j / t' * (R L g y j l - L l j * y j) = (L l j * t + r * d j * y j * R L g y j l) / t' := by
    intro l
    rw [eq_div_iff ht'.ne']
    field_simp
    rw [eT]; ring
  rw [e a, e b]
  have ht0 := ht.ne'
  have ht0' := ht'.ne'
  have hd0 := hdj.ne'
  field_simp
  rw [eT]
  ring

/-- the rank-one update of the factors adds `r g gᵀ` to the inverse shape -/
theorem factor (hr : 0 ≤ r) (hd : ∀ i < n, 0 < d i) (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j) {a b : ℕ} (ha : a < n) :
    N n (L' L d g y r) (d' d y r) a b = N n L d a b + r * (g a * g b) := by
  have tel : ∀ m ≤ n, ∑ j ∈ range m, L a j * L b j / d j + r * (g a * g b)
      = ∑ j ∈ range m, L' L d g y r a j * L' L d g y r b j / d' d y r j
        + r / T d y r m * (R L g y m a * R L g y m b) := by
    intro m
    induction m with
    | zero => intro _; simp [T, R]
    | succ m ih =>
      intro hm
      have h := ih (by omega)
      have s := step (L := L) (g := g) (y := y) hr hd (Nat.lt_of_succ_le hm) a b
      rw [sum_range_succ, sum_range_succ]
      linarith
  have := tel n le_rfl
  rw [R_zero h1 h0 hy ha ha] at this
  unfold N
  linarith

theorem forward (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j) {a : ℕ} (ha : a < n) :
    ∑ j ∈ range n, L a j * y j = g a := by
  have := R_zero h1 h0 hy ha ha
  unfold R at this
  linarith

theorem backward (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hz : ∀ i < n, z i = d i * y i - ∑ j ∈ Ico (i + 1) n, L j i * z j) {j : ℕ} (hj : j < n) :
    ∑ b ∈ range n, L b j * z b = d j * y j := by
  have e : ∑ b ∈ range n, L b j * z b = ∑ b ∈ Ico j n, L b j * z b := by
    symm
    rw [range_eq_Ico]
    apply sum_subset (Ico_subset_Ico_left (Nat.zero_le j))
    intro b hb hb'
    simp only [mem_Ico] at hb hb'
    rw [h0 b (by omega) j (by omega), zero_mul]
  rw [e, sum_eq_sum_Ico_succ_bot hj, h1 j hj, one_mul]
  linarith [hz j hj]

/-- the code's `z` is the solution of `N z = g` -/
theorem solve (hd : ∀ i < n, 0 < d i) (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j)
    (hz : ∀ i < n, z i = d i * y i - ∑ j ∈ Ico (i + 1) n, L j i * z j) {a : ℕ} (ha : a < n) :
    ∑ b ∈ range n, N n L d a b * z b = g a := by
  unfold N
  simp_rw [sum_mul]
  rw [sum_comm, ← forward h1 h0 hy ha]
  apply sum_congr rfl
  intro j hj
  have hj := mem_range.mp hj
  have hb := backward h1 h0 hz hj
  have hd0 := (hd j hj).ne'
  calc ∑ b ∈ range n, L a j * L b j / d j * z b = L a j / d j * ∑ b ∈ range n, L b j * z b := by
        rw [mul_sum]; apply sum_congr rfl; intro b _; ring
    _ = L a j * y j := by rw [hb]; field_simp

/-- the code's `ω` is `g' M g` -/
theorem omega (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j)
    (hz : ∀ i < n, z i = d i * y i - ∑ j ∈ Ico (i + 1) n, L j i * z j) :
    ∑ a ∈ range n, g a * z a = ∑ j ∈ range n, d j * y j * y j := by
  have : ∑ a ∈ range n, g a * z a = ∑ a ∈ range n, ∑ j ∈ range n, L a j * y j * z a := by
    apply sum_congr rfl
    intro a ha
    rw [← forward h1 h0 hy (mem_range.mp ha), sum_mul]
  rw [this, sum_comm]
  apply sum_congr rfl
  intro j hj
  rw [← backward h1 h0 hz (mem_range.mp hj), sum_mul]
  apply sum_congr rfl
  intro a _; ring

def vec (n : ℕ) (f : ℕ → ℝ) : V n := fun i => f i
def mat (n : ℕ) (L : ℕ → ℕ → ℝ) (d : ℕ → ℝ) : Mat n := fun a b => N n L d a b

/-- Sherman–Morrison -/
theorem sherman (P M : Mat n) (hPM : P * M = 1) (hM : M.IsSymm) (g : V n) (ω σ : ℝ) (hω : ω = g ⬝ᵥ (M *ᵥ g))
    (h0 : 0 < ω) (hσ : σ < 1) :
    (P + (σ / ((1 - σ) * ω)) • vecMulVec g g) * upd M g ω σ = 1 := by
  unfold upd
  have e1 : P * vecMulVec (M *ᵥ g) (M *ᵥ g) = vecMulVec g (M *ᵥ g) := by
    rw [mul_vecMulVec, mulVec_mulVec, hPM, one_mulVec]
  have e2 : vecMulVec g g * M = vecMulVec g (M *ᵥ g) := by
    rw [vecMulVec_mul, ← mulVec_transpose, hM.eq]
  have e3 : vecMulVec g g * vecMulVec (M *ᵥ g) (M *ᵥ g) = ω • vecMulVec g (M *ᵥ g) := by
    rw [vecMulVec_mul_vecMulVec, ← hω]
    ext i j
    simp [vecMulVec_apply]
    try ring
  rw [add_mul, mul_sub, mul_sub, Matrix.mul_smul, Matrix.smul_mul, Matrix.smul_mul, Matrix.mul_smul, hPM, e1, e2, e3]
  have h1 : (1 - σ) ≠ 0 := by linarith
  have hw := h0.ne'
  have : (σ / ((1 - σ) * ω)) • vecMulVec g (M *ᵥ g) - (σ / ((1 - σ) * ω)) • (σ / ω) • ω • vecMulVec g (M *ᵥ g)
      = (σ / ω) • vecMulVec g (M *ᵥ g) := by
    rw [smul_smul, smul_smul, ← sub_smul]
    congr 1
    field_simp
  rw [this]
  abel

/-- the factored update represents exactly the updated shape of the plain ellipsoid -/
theorem represents (M : Mat n) (hd : ∀ i < n, 0 < d i) (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hNM : mat n L d * M = 1)
    (hy : ∀ i < n, y i = g i - ∑ j ∈ range i, L i j * y j)
    (hz : ∀ i < n, z i = d i * y i - ∑ j ∈ Ico (i + 1) n, L j i * z j)
    (ω σ : ℝ) (hω : ω = ∑ j ∈ range n, d j * y j * y j) (hω0 : 0 < ω) (hσ0 : 0 ≤ σ) (hσ : σ < 1)
    (hr : r = σ / ((1 - σ) * ω)) :
    M.IsSymm ∧ M *ᵥ vec n g = vec n z ∧ ω = vec n g ⬝ᵥ (M *ᵥ vec n g)
      ∧ mat n (L' L d g y r) (d' d y r) * upd M (vec n g) ω σ = 1 ∧ (∀ j < n, 0 < d' d y r j) := by
  have hr0 : 0 ≤ r := by rw [hr]; exact div_nonneg hσ0 (mul_nonneg (by linarith) hω0.le)
  have hNs : (mat n L d)ᵀ = mat n L d := by
    ext i j
    simp only [transpose_apply, mat, N]
    apply sum_congr rfl; intro k _; ring
  have hMN : M * mat n L d = 1 := mul_eq_one_comm.mp hNM
  have hM : M.IsSymm := by
    have t : Mᵀ * mat n L d = 1 := by
      have := congrArg transpose hNM
      rwa [transpose_mul, hNs, transpose_one] at this
    calc Mᵀ = Mᵀ * (mat n L d * M) := by rw [hNM, mul_one]
      _ = M := by rw [← mul_assoc, t, one_mul]
  have hNz : mat n L d *ᵥ vec n z = vec n g := by
    ext a
    have := solve hd h1 h0 hy hz a.2
    rw [← Fin.sum_univ_eq_sum_range (fun b => N n L d a b * z b) n] at this
    exact this
  have hMg : M *ᵥ vec n g = vec n z := by
    rw [← hNz, mulVec_mulVec, hMN, one_mulVec]
  have hom : ω = vec n g ⬝ᵥ (M *ᵥ vec n g) := by
    rw [hMg, hω, ← omega h1 h0 hy hz, ← Fin.sum_univ_eq_sum_range (fun a => g a * z a) n]
    rfl
  refine ⟨hM, hMg, hom, ?_, fun j hj => d'_pos hr0 hd hj⟩
  have hN' : mat n (L' L d g y r) (d' d y r) = mat n L d + (σ / ((1 - σ) * ω)) • vecMulVec (vec n g) (vec n g) := by
    ext a b
    rw [← hr]
    simp only [mat, vec, Matrix.add_apply, Matrix.smul_apply, vecMulVec_apply, smul_eq_mul]
    exact factor hr0 hd h1 h0 hy a.2
  rw [hN']
  exact sherman _ M hNM hM (vec n g) ω σ hom hω0 hσ

/-- a state with positive diagonal represents a positive definite shape -/
theorem posdef (M : Mat n) (hd : ∀ i < n, 0 < d i) (h1 : ∀ i < n, L i i = 1) (h0 : ∀ i < n, ∀ j, i < j → L i j = 0)
    (hNM : mat n L d * M = 1) (w : V n) (hw : w ≠ 0) : 0 < w ⬝ᵥ (M *ᵥ w) := by
  set v := M *ᵥ w with hv
  have hwv : w = mat n L d *ᵥ v := by rw [hv, mulVec_mulVec, hNM, one_mulVec]
  have e : w ⬝ᵥ v = ∑ j : Fin n, (∑ a : Fin n, L a j * v a) ^ 2 / d j := by
    rw [hwv]
    have : ∀ a : Fin n, (mat n L d *ᵥ v) a = ∑ j : Fin n, L a j / d j * ∑ b : Fin n, L b j * v b := by
      intro a
      simp only [mulVec, dotProduct, mat, N]
      simp_rw [← Fin.sum_univ_eq_sum_range (fun j => L a j * L _ j / d j) n, sum_mul]
      rw [sum_comm]
      apply sum_congr rfl; intro j _
      rw [mul_sum]
      apply sum_congr rfl; intro b _; ring
    simp only [dotProduct, this, sum_mul]
    rw [sum_comm]
    apply sum_congr rfl; intro j _
    rw [sq, mul_div_assoc, sum_mul]
    apply sum_congr rfl; intro a _; ring
  have hv0 : v ≠ 0 := by
    intro h; apply hw; rw [hwv, h, mulVec_zero]
  rw [e]
  -- the last non-zero entry of v survives the triangular product
  obtain ⟨m, hm, hmax⟩ : ∃ m : Fin n, v m ≠ 0 ∧ ∀ i : Fin n, m < i → v i = 0 := by
    have hne : (univ.filter (fun i : Fin n => v i ≠ 0)).Nonempty := by
      obtain ⟨i, hi⟩ := Function.ne_iff.mp hv0
      exact ⟨i, by simpa using hi⟩
    refine ⟨(univ.filter (fun i : Fin n => v i ≠ 0)).max' hne, ?_, ?_⟩
    · have := max'_mem _ hne
      simpa using this
    · intro i hi
      by_contra h
      exact absurd (le_max' _ i (by simpa using h)) (not_le.mpr hi)
  have hcol : ∑ a : Fin n, L a m * v a = v m := by
    rw [sum_eq_single m]
    · rw [h1 m m.2, one_mul]
    · intro a _ ham
      rcases lt_or_gt_of_ne ham with h | h
      · rw [h0 a a.2 m h, zero_mul]
      · rw [hmax a h, mul_zero]
    · simp
  apply sum_pos'
  · intro j _; exact div_nonneg (sq_nonneg _) (hd j j.2).le
  · exact ⟨m, mem_univ m, by rw [hcol]; exact div_pos (by positivity) (hd m m.2)⟩
end Stable
end
#print axioms Ell.contain
#print axioms Ell.volume
#print axioms Ell.upd_pos
#print axioms Stable.represents
#print axioms Stable.posdef
