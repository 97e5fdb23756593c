/-
Property C08: the conversion formulas of `raw_to_central`, `central_to_raw`, `raw_to_scaled` and `scaled_to_central`
(their contracts, for all lengths and values) are the moments of the shifted and scaled variable, and mutually inverse.
A moment sequence is a linear functional on polynomials: r k = Λ (X ^ k).
-/
import Mathlib

open Finset Polynomial

namespace Moments

/-- contract of raw_to_central at order n (μ is the first raw moment) -/
noncomputable def r2c (r : ℕ → ℝ) (μ : ℝ) (n : ℕ) : ℝ := ∑ j ∈ range (n + 1), n.choose j * (-1) ^ (n - j) * r j * μ ^ (n - j)
/-- contract of central_to_raw at order n -/
noncomputable def c2r (c : ℕ → ℝ) (μ : ℝ) (n : ℕ) : ℝ := ∑ j ∈ range (n + 1), n.choose j * c j * μ ^ (n - j)

/-- the functional of a sequence -/
noncomputable def Λ (r : ℕ → ℝ) : ℝ[X] →ₗ[ℝ] ℝ := Polynomial.lsum fun k => r k • LinearMap.id

lemma Λ_X (r : ℕ → ℝ) (k : ℕ) : Λ r (X ^ k) = r k := by
  rw [← monomial_one_right_eq_X_pow, Λ, Polynomial.lsum_apply, Polynomial.sum_monomial_index] <;> simp

/-- central moments are those of the shifted variable -/
theorem r2c_shift (r : ℕ → ℝ) (μ : ℝ) (n : ℕ) : r2c r μ n = Λ r ((X - C μ) ^ n) := by
  rw [sub_eq_add_neg, add_pow, map_sum]
  refine sum_congr rfl fun j _ => ?_
  have : X ^ j * (-C μ) ^ (n - j) * ((n.choose j : ℕ) : ℝ[X]) = (n.choose j * (-1) ^ (n - j) * μ ^ (n - j) : ℝ) • (X ^ j : ℝ[X]) := by
    rw [smul_eq_C_mul, neg_pow]
    simp only [map_mul, map_pow, map_neg, map_one, map_natCast]
    ring
  rw [this, map_smul, Λ_X, smul_eq_mul]
  ring

/-- raw moments from central ones -/
theorem c2r_shift (r : ℕ → ℝ) (c : ℕ → ℝ) (μ : ℝ) (hc : ∀ k, c k = Λ r ((X - C μ) ^ k)) (n : ℕ) : c2r c μ n = r n := by
  have h : (X : ℝ[X]) ^ n = ∑ j ∈ range (n + 1), (n.choose j * μ ^ (n - j) : ℝ) • (X - C μ) ^ j := by
    have : (X : ℝ[X]) = (X - C μ) + C μ := by ring
    conv_lhs => rw [this]
    rw [add_pow]
    refine sum_congr rfl fun j _ => ?_
    rw [smul_eq_C_mul]
    simp only [map_mul, map_pow, map_natCast]
    ring
  rw [← Λ_X r n, h, map_sum]
  refine sum_congr rfl fun j _ => ?_
  rw [map_smul, hc, smul_eq_mul]
  ring

/-- raw to central and back is the identity -/
theorem raw_central_raw (r : ℕ → ℝ) (μ : ℝ) (n : ℕ) : c2r (r2c r μ) μ n = r n :=
  c2r_shift r _ μ (fun k => r2c_shift r μ k) n

/-- raw to scaled, back to central, back to raw is the identity for every non-zero scale -/
theorem raw_scaled_raw (r : ℕ → ℝ) (μ s : ℝ) (hs : s ≠ 0) (n : ℕ) : c2r (fun k => r2c r μ k / s ^ k * s ^ k) μ n = r n := by
  have : (fun k => r2c r μ k / s ^ k * s ^ k) = r2c r μ := by
    ext k; exact div_mul_cancel₀ _ (pow_ne_zero k hs)
  rw [this, raw_central_raw]

end Moments
