/-
Property C03: the rule computed by `moment_quadrature` is the Gauss rule of the given moments.

The contract of `moment_quadrature` states, for all sizes and values: with G, H the pair of Hankel matrices, R the
Cholesky factor of G and K = R^-1 H R^-T = V diag(l) V^T, the weights are the squares of the first row of V and the
nodes are scale * l + mean.  The lemmas below take this as definition and derive that the rule reproduces all 2 n moments.
-/
import Mathlib

open Matrix Finset

namespace Gauss

variable {n : ℕ}

/-- the pair of Hankel matrices -/
def G (m : ℕ → ℝ) : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ := fun i j => m (i.val + j.val)
def H (m : ℕ → ℝ) : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ := fun i j => m (i.val + j.val + 1)

variable {m : ℕ → ℝ} {R V : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ} {l : Fin (n + 1) → ℝ}

/-- the vector of the j-th monomial in the orthonormal basis -/
noncomputable def u (R : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) (j : Fin (n + 1)) : Fin (n + 1) → ℝ := R j

lemma u_dot (hG : (G m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) = R * Rᵀ) (a b : Fin (n + 1)) :
    u R a ⬝ᵥ u R b = m (a.val + b.val) := by
  have := congrFun (congrFun hG a) b
  rw [mul_apply] at this
  simp only [G, transpose_apply] at this
  rw [this]; rfl

lemma K_u (hu : IsUnit R.det) (hG : (G m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) = R * Rᵀ) (a b : Fin (n + 1)) (h : b.val = a.val + 1) :
    (R⁻¹ * H m * (R⁻¹)ᵀ) *ᵥ u R a = u R b := by
  have h1 : (R⁻¹)ᵀ *ᵥ u R a = Pi.single a 1 := by
    have : u R a = Rᵀ *ᵥ Pi.single a 1 := by
      ext i; simp [u]
    rw [this, mulVec_mulVec, ← transpose_mul, mul_nonsing_inv R hu, transpose_one, one_mulVec]
  have h2 : (H m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) *ᵥ Pi.single a 1 = (G m) *ᵥ Pi.single b 1 := by
    ext i
    simp only [mulVec_single_one, H, G, h, col_apply]
    congr 1
  have h3 : u R b = Rᵀ *ᵥ Pi.single b 1 := by
    ext i; simp [u]
  rw [← mulVec_mulVec, h1, ← mulVec_mulVec, h2, hG, mulVec_mulVec, ← Matrix.mul_assoc, nonsing_inv_mul R hu, Matrix.one_mul, h3]

lemma Kpow_u (hu : IsUnit R.det) (hG : (G m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) = R * Rᵀ) (a : ℕ) (h : a < n + 1) :
    (R⁻¹ * H m * (R⁻¹)ᵀ) ^ a *ᵥ u R 0 = u R ⟨a, h⟩ := by
  induction a with
  | zero => rw [pow_zero, one_mulVec]; rfl
  | succ a ih =>
    rw [pow_succ', ← mulVec_mulVec, ih (by omega)]
    exact K_u hu hG _ _ rfl

lemma H_u (hu : IsUnit R.det) (a b : Fin (n + 1)) :
    u R a ⬝ᵥ ((R⁻¹ * H m * (R⁻¹)ᵀ) *ᵥ u R b) = m (a.val + b.val + 1) := by
  have h : R * ((R⁻¹ * H m * (R⁻¹)ᵀ) * Rᵀ) = (H m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) := by
    rw [Matrix.mul_assoc (R⁻¹ * H m), ← transpose_mul, mul_nonsing_inv R hu, transpose_one, Matrix.mul_one, ← Matrix.mul_assoc,
      mul_nonsing_inv R hu, Matrix.one_mul]
  have h2 := congrFun (congrFun h a) b
  rw [mul_apply] at h2
  exact h2

/-- the Hankel form: moments are the powers of K in the direction of the constant polynomial -/
theorem hankel_form (hu : IsUnit R.det) (hG : (G m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) = R * Rᵀ) (p : ℕ) (hp : p ≤ 2 * n + 1) :
    u R 0 ⬝ᵥ ((R⁻¹ * H m * (R⁻¹)ᵀ) ^ p *ᵥ u R 0) = m p := by
  set K := R⁻¹ * H m * (R⁻¹)ᵀ with hK
  have hsym : Kᵀ = K := by
    have : (H m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ)ᵀ = H m := by
      ext i j; simp only [transpose_apply, H]; congr 2; omega
    rw [hK, transpose_mul, transpose_mul, transpose_transpose, this, Matrix.mul_assoc]
  have hsp : ∀ a : ℕ, (K ^ a)ᵀ = K ^ a := fun a => by rw [transpose_pow, hsym]
  have hmove : ∀ (a : ℕ) (x y : Fin (n + 1) → ℝ), x ⬝ᵥ (K ^ a *ᵥ y) = (K ^ a *ᵥ x) ⬝ᵥ y := by
    intro a x y
    rw [dotProduct_mulVec, ← mulVec_transpose, hsp]
  rcases Nat.lt_or_ge p (2 * n + 1) with h | h
  · obtain ⟨a, b, hab, ha, hb⟩ : ∃ a b, p = a + b ∧ a < n + 1 ∧ b < n + 1 := ⟨p / 2, p - p / 2, by omega, by omega, by omega⟩
    rw [hab, pow_add, ← mulVec_mulVec, hmove, Kpow_u hu hG a ha, Kpow_u hu hG b hb, u_dot hG]
  · have hpn : p = n + (1 + n) := by omega
    rw [hpn, pow_add, ← mulVec_mulVec, hmove, Kpow_u hu hG n (by omega), pow_add, pow_one, ← mulVec_mulVec, Kpow_u hu hG n (by omega),
      H_u hu]
    congr 1; simp only; omega

/-- the rule reproduces all 2 (n + 1) moments -/
theorem gauss_rule (hlow : ∀ i j : Fin (n + 1), i < j → R i j = 0) (hdiag : ∀ i, 0 < R i i)
    (hG : (G m : Matrix (Fin (n + 1)) (Fin (n + 1)) ℝ) = R * Rᵀ) (hV : V * Vᵀ = 1)
    (hK : R⁻¹ * H m * (R⁻¹)ᵀ = V * diagonal l * Vᵀ) (h0 : m 0 = 1) (p : ℕ) (hp : p ≤ 2 * n + 1) :
    ∑ k, V 0 k ^ 2 * l k ^ p = m p := by
  have hu : IsUnit R.det := by
    rw [det_of_lowerTriangular R (fun i j h => hlow i j h)]
    exact isUnit_iff_ne_zero.mpr (prod_ne_zero_iff.mpr fun i _ => (hdiag i).ne')
  have hV' : Vᵀ * V = 1 := mul_eq_one_comm.mp hV
  have hpow : ∀ q : ℕ, (V * diagonal l * Vᵀ) ^ q = V * diagonal (fun k => l k ^ q) * Vᵀ := by
    intro q
    induction q with
    | zero => simp [hV]
    | succ q ih =>
      rw [pow_succ, ih]
      calc V * diagonal (fun k => l k ^ q) * Vᵀ * (V * diagonal l * Vᵀ)
          = V * diagonal (fun k => l k ^ q) * (Vᵀ * V) * diagonal l * Vᵀ := by simp only [Matrix.mul_assoc]
        _ = _ := by
          rw [hV', Matrix.mul_one, Matrix.mul_assoc V, diagonal_mul_diagonal]
          simp only [pow_succ]
  have hR00 : R 0 0 = 1 := by
    have := u_dot hG 0 0
    rw [u, dotProduct, Finset.sum_eq_single 0] at this
    · simp only [Fin.val_zero, add_zero, h0] at this
      nlinarith [hdiag 0]
    · intro j _ hj
      rw [hlow 0 j (Fin.pos_of_ne_zero hj), zero_mul]
    · simp
  have hu0 : u R 0 = Pi.single 0 1 := by
    ext j
    by_cases hj : j = 0
    · subst hj; simp [u, hR00]
    · simp [u, hlow 0 j (Fin.pos_of_ne_zero hj), hj]
  have := hankel_form hu hG p hp
  rw [hu0, hK, hpow, mulVec_single_one, single_one_dotProduct, col_apply, mul_apply] at this
  rw [← this]
  refine sum_congr rfl fun k _ => ?_
  rw [mul_diagonal, transpose_apply]
  ring

/-- with a mean and a scale the rule reproduces the moments of scale * y + mean -/
theorem shifted (w l : Fin (n + 1) → ℝ) (μ s : ℝ) (hm : ∀ p ≤ 2 * n + 1, ∑ k, w k * l k ^ p = m p) (p : ℕ) (hp : p ≤ 2 * n + 1) :
    ∑ k, w k * (s * l k + μ) ^ p = ∑ j ∈ range (p + 1), s ^ j * μ ^ (p - j) * p.choose j * m j := by
  have : ∀ j ∈ range (p + 1), s ^ j * μ ^ (p - j) * p.choose j * m j = ∑ k, w k * (s ^ j * μ ^ (p - j) * p.choose j * l k ^ j) := by
    intro j hj
    rw [← hm j (by have := mem_range.mp hj; omega), mul_sum]
    exact sum_congr rfl fun k _ => by ring
  rw [sum_congr rfl this, sum_comm]
  refine sum_congr rfl fun k _ => ?_
  rw [← mul_sum, add_pow]
  congr 1
  exact sum_congr rfl fun j _ => by rw [mul_pow]; ring

end Gauss
