/-
Property C09: the closed forms that the contracts of `raw_moment_of_standard_normal`, `central_moment_of_normal` and
`raw_moment_of_normal` state are the moments of the normal distribution for every order, and Kan's formula, as stated by
the contracts of `raw_moments_mvn_kan` and `central_moments_mvn_kan`, is the moment of the multivariate normal for every
dimension and multi-index (the multivariate normal is characterised by the laws of its linear combinations).
-/
import Mathlib

open Finset MeasureTheory ProbabilityTheory Real
open scoped NNReal

namespace Normal

set_option linter.unusedSectionVars false

/-- contract of central_moment_of_normal -/
noncomputable def central (v : ℝ) (p : ℕ) : ℝ := if p % 2 = 0 then v ^ (p / 2) * (p.factorial / (2 ^ (p / 2) * (p / 2).factorial)) else 0
/-- contract of raw_moment_of_normal -/
noncomputable def raw (mean v : ℝ) (p : ℕ) : ℝ :=
  ∑ m ∈ range (p + 1), p.choose m * mean ^ m * (if (p - m) % 2 = 0 then v ^ ((p - m) / 2) * central 1 (p - m) else 0)

lemma iteratedDeriv_id_mul (g : ℝ → ℝ) (hg : ContDiff ℝ (⊤ : ℕ∞) g) (n : ℕ) :
    iteratedDeriv (n + 1) (fun t => t * g t) 0 = (n + 1) * iteratedDeriv n g 0 := by
  induction n generalizing g with
  | zero =>
    have hd : Differentiable ℝ g := hg.differentiable (by simp)
    rw [zero_add, iteratedDeriv_one, iteratedDeriv_zero, deriv_fun_mul (by fun_prop) hd.differentiableAt]
    simp
  | succ n ih =>
    have hd : Differentiable ℝ g := hg.differentiable (by simp)
    have hg' : ContDiff ℝ (⊤ : ℕ∞) (deriv g) := (contDiff_infty_iff_deriv.mp hg).2
    have : deriv (fun t => t * g t) = fun t => g t + t * deriv g t := by
      ext t
      rw [deriv_fun_mul (by fun_prop) hd.differentiableAt]
      simp
    have hle : ((n + 1 : ℕ) : WithTop ℕ∞) ≤ ((⊤ : ℕ∞) : WithTop ℕ∞) := by exact_mod_cast le_top
    have h1 : ContDiffAt ℝ (n + 1 : ℕ) g 0 := (hg.of_le hle).contDiffAt
    have h2 : ContDiffAt ℝ (n + 1 : ℕ) (fun t => t * deriv g t) 0 := (contDiff_id.mul (hg'.of_le hle)).contDiffAt
    rw [iteratedDeriv_succ', this, iteratedDeriv_fun_add h1 h2, ih _ hg', ← iteratedDeriv_succ']
    push_cast; ring

/-- moments of N(0, v) satisfy the two-term recurrence -/
lemma two_term (v : ℝ≥0) (n : ℕ) : ∫ x, x ^ (n + 2) ∂gaussianReal 0 v = v * (n + 1) * ∫ x, x ^ n ∂gaussianReal 0 v := by
  have h : ∀ p : ℕ, ∫ x, x ^ p ∂gaussianReal 0 v = iteratedDeriv p (fun t : ℝ => rexp (v * t ^ 2 / 2)) 0 := by
    intro p
    have h1 := iteratedDeriv_mgf_zero (X := fun x : ℝ => x) (μ := gaussianReal 0 v) (by simp) p
    rw [mgf_fun_id_gaussianReal] at h1
    simp only [zero_mul, zero_add] at h1
    rw [h1]; rfl
  have hs : ContDiff ℝ (⊤ : ℕ∞) (fun t : ℝ => rexp (v * t ^ 2 / 2)) := by fun_prop
  have hd : deriv (fun t : ℝ ↦ rexp (v * t ^ 2 / 2)) = fun t ↦ v * (t * rexp (v * t ^ 2 / 2)) := by
    ext t
    rw [_root_.deriv_exp (by fun_prop)]
    simp only [deriv_div_const, differentiableAt_const, differentiableAt_fun_id, Nat.cast_ofNat,
      DifferentiableAt.fun_pow, deriv_fun_mul, deriv_const', zero_mul, deriv_fun_pow,
      Nat.add_one_sub_one, pow_one, deriv_id'', mul_one, zero_add]
    ring
  rw [h, h, iteratedDeriv_succ', hd, iteratedDeriv_const_mul_field, iteratedDeriv_id_mul _ hs]
  ring

theorem central_moment (v : ℝ≥0) (p : ℕ) : ∫ x, x ^ p ∂gaussianReal 0 v = central v p := by
  induction p using Nat.strong_induction_on with
  | _ p ih =>
    rcases p with _ | _ | p
    · simp [central]
    · simp [central]
    · rw [two_term, ih p (by omega), central, central]
      have e : (p + 2) / 2 = p / 2 + 1 := by omega
      have e2 : (p + 2) % 2 = p % 2 := by omega
      rw [e, e2]
      split_ifs with h
      · obtain ⟨q, rfl⟩ : ∃ q, p = 2 * q := ⟨p / 2, by omega⟩
        have e3 : 2 * q / 2 = q := by omega
        rw [e3, Nat.factorial_succ, Nat.factorial_succ, Nat.factorial_succ]
        have : (q.factorial : ℝ) ≠ 0 := by positivity
        have hq : (q : ℝ) + 1 ≠ 0 := by positivity
        push_cast
        field_simp
        ring
      · ring

theorem raw_moment (mean : ℝ) (v : ℝ≥0) (p : ℕ) : ∫ x, x ^ p ∂gaussianReal mean v = raw mean v p := by
  have hint : ∀ k : ℕ, Integrable (fun x : ℝ => x ^ k) (gaussianReal 0 v) := by
    intro k
    have := (memLp_id_gaussianReal' (μ := 0) (v := v) k (by simp)).integrable_norm_pow' 
    refine this.mono (by fun_prop) (Filter.Eventually.of_forall fun x => ?_)
    simp
  have hm : gaussianReal mean v = (gaussianReal 0 v).map (· + mean) := by rw [gaussianReal_map_add_const, zero_add]
  rw [hm, integral_map (by fun_prop) (by fun_prop)]
  have h : ∀ x : ℝ, (x + mean) ^ p = ∑ m ∈ range (p + 1), p.choose m * mean ^ m * x ^ (p - m) := by
    intro x
    rw [add_comm, add_pow]
    exact sum_congr rfl fun m _ => by ring
  simp_rw [h]
  rw [integral_finsetSum _ (fun m _ => (hint (p - m)).const_mul _), raw]
  refine sum_congr rfl fun m _ => ?_
  rw [integral_const_mul, central_moment]
  congr 1
  unfold central
  split_ifs <;> simp


/-! ### Kan's formula -/

section kan
variable {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- exp (a t) as a power series in t -/
noncomputable def E (a : ℝ) : PowerSeries ℝ := PowerSeries.rescale a (PowerSeries.exp ℝ)

lemma E_coeff (a : ℝ) (n : ℕ) : PowerSeries.coeff n (E a) = a ^ n / n.factorial := by
  rw [E, PowerSeries.coeff_rescale, PowerSeries.coeff_exp]
  simp [div_eq_mul_inv]

lemma E_add (a b : ℝ) : E a * E b = E (a + b) := PowerSeries.exp_mul_exp_eq_exp_add a b

lemma E_zero : E 0 = 1 := by
  ext n
  rw [E_coeff, PowerSeries.coeff_one]
  rcases n with _ | n <;> simp

lemma E_pow (a : ℝ) (k : ℕ) : E a ^ k = E (k * a) := by
  induction k with
  | zero => simp [E_zero]
  | succ k ih => rw [pow_succ, ih, E_add]; congr 1; push_cast; ring

lemma E_prod (f : ι → ℝ) (t : Finset ι) : ∏ i ∈ t, E (f i) = E (∑ i ∈ t, f i) := by
  induction t using Finset.induction_on with
  | empty => simp [E_zero]
  | insert a t ha ih => rw [prod_insert ha, sum_insert ha, ih, E_add]

lemma E_diff_pow (x : ℝ) (s : ℕ) :
    (E (x / 2) - E (-x / 2)) ^ s = ∑ ν ∈ range (s + 1), PowerSeries.C ((-1) ^ ν * (s.choose ν : ℝ)) * E (((s : ℝ) / 2 - ν) * x) := by
  rw [sub_eq_neg_add, add_pow]
  refine sum_congr rfl fun ν hν => ?_
  have hν' : ν ≤ s := by have := mem_range.mp hν; omega
  rw [neg_pow, mul_assoc ((-1) ^ ν), E_pow, E_pow, E_add]
  have : (ν : ℝ) * (-x / 2) + ((s - ν : ℕ) : ℝ) * (x / 2) = ((s : ℝ) / 2 - ν) * x := by
    rw [Nat.cast_sub hν']; ring
  rw [this, map_mul, map_pow, map_neg, map_one, map_natCast]
  ring

/-- the polarisation identity behind Kan's formula -/
theorem polarisation (s : ι → ℕ) (x : ι → ℝ) :
    ∑ ν ∈ Fintype.piFinset (fun i => range (s i + 1)),
      ((-1) ^ (∑ i, ν i) * ∏ i, ((s i).choose (ν i) : ℝ)) * (∑ i, ((s i : ℝ) / 2 - ν i) * x i) ^ (∑ i, s i) =
    (∑ i, s i).factorial * ∏ i, x i ^ s i := by
  set S := ∑ i, s i with hS
  have h1 : PowerSeries.coeff S (∏ i, (E (x i / 2) - E (-x i / 2)) ^ s i) = ∏ i, x i ^ s i := by
    have hF : ∀ i, ∃ F : PowerSeries ℝ, E (x i / 2) - E (-x i / 2) = PowerSeries.X * F ∧ PowerSeries.constantCoeff F = x i := by
      intro i
      have hd : (PowerSeries.X : PowerSeries ℝ) ∣ E (x i / 2) - E (-x i / 2) := by
        rw [PowerSeries.X_dvd_iff, map_sub, ← PowerSeries.coeff_zero_eq_constantCoeff_apply, ← PowerSeries.coeff_zero_eq_constantCoeff_apply,
          E_coeff, E_coeff]
        simp
      obtain ⟨F, hF⟩ := hd
      refine ⟨F, hF, ?_⟩
      have := congrArg (PowerSeries.coeff 1) hF
      have h1' : PowerSeries.coeff 1 (PowerSeries.X * F) = PowerSeries.coeff 0 F := PowerSeries.coeff_succ_X_mul 0 F
      rw [map_sub, E_coeff, E_coeff, h1', PowerSeries.coeff_zero_eq_constantCoeff_apply] at this
      rw [← this]; simp; ring
    choose F hF1 hF2 using hF
    have : ∏ i, (E (x i / 2) - E (-x i / 2)) ^ s i = PowerSeries.X ^ S * ∏ i, F i ^ s i := by
      rw [hS, ← prod_pow_eq_pow_sum, ← prod_mul_distrib]
      exact prod_congr rfl fun i _ => by rw [hF1, mul_pow]
    rw [this, PowerSeries.coeff_X_pow_mul', if_pos le_rfl, Nat.sub_self, PowerSeries.coeff_zero_eq_constantCoeff_apply, map_prod]
    exact prod_congr rfl fun i _ => by rw [map_pow, hF2]
  have h2 : ∏ i, (E (x i / 2) - E (-x i / 2)) ^ s i = ∑ ν ∈ Fintype.piFinset (fun i => range (s i + 1)),
      PowerSeries.C ((-1) ^ (∑ i, ν i) * ∏ i, ((s i).choose (ν i) : ℝ)) * E (∑ i, ((s i : ℝ) / 2 - ν i) * x i) := by
    simp_rw [E_diff_pow]
    rw [prod_univ_sum]
    refine sum_congr rfl fun ν _ => ?_
    rw [prod_mul_distrib, E_prod, ← map_prod, prod_mul_distrib, prod_pow_eq_pow_sum]
  rw [h2, map_sum] at h1
  rw [← h1, mul_sum]
  refine sum_congr rfl fun ν _ => ?_
  rw [PowerSeries.coeff_C_mul, E_coeff]
  have : (S.factorial : ℝ) ≠ 0 := by positivity
  field_simp

/-- the scalar raw moment in the form used by Kan's formula -/
lemma raw_div (mean v : ℝ) (S : ℕ) :
    raw mean v S / S.factorial = ∑ r ∈ range (S / 2 + 1), (v / 2) ^ r * mean ^ (S - 2 * r) / (r.factorial * (S - 2 * r).factorial) := by
  have hz : raw mean v S = ∑ m ∈ (range (S + 1)).filter (fun m => (S - m) % 2 = 0), S.choose m * mean ^ m * (v ^ ((S - m) / 2) * central 1 (S - m)) := by
    rw [raw, sum_filter]
    refine sum_congr rfl fun m _ => ?_
    split_ifs <;> simp
  rw [hz, sum_div]
  refine sum_nbij' (fun m => (S - m) / 2) (fun r => S - 2 * r) ?_ ?_ ?_ ?_ ?_
  · intro m hm; rw [mem_filter, mem_range] at hm; rw [mem_range]; omega
  · intro r hr; rw [mem_range] at hr; rw [mem_filter, mem_range]; omega
  · intro m hm; rw [mem_filter, mem_range] at hm; omega
  · intro r hr; rw [mem_range] at hr; omega
  · intro m hm
    rw [mem_filter, mem_range] at hm
    obtain ⟨r, hr⟩ : ∃ r, S - m = 2 * r := ⟨(S - m) / 2, by omega⟩
    have e : S - 2 * r = m := by omega
    have e2 : 2 * r / 2 = r := by omega
    simp only [hr, e2, e, central]
    rw [Nat.cast_choose ℝ (by omega : m ≤ S), hr, if_pos (by omega)]
    have h1 : (S.factorial : ℝ) ≠ 0 := by positivity
    have h2 : ((2 * r).factorial : ℝ) ≠ 0 := by positivity
    have h3 : (m.factorial : ℝ) ≠ 0 := by positivity
    have h4 : (r.factorial : ℝ) ≠ 0 := by positivity
    rw [one_pow, div_pow]
    field_simp

/-- contract of raw_moments_mvn_kan -/
noncomputable def kan (μ : ι → ℝ) (cov : ι → ι → ℝ) (s : ι → ℕ) : ℝ :=
  ∑ ν ∈ Fintype.piFinset (fun i => range (s i + 1)), ∑ r ∈ range ((∑ i, s i) / 2 + 1),
    ((-1) ^ (∑ i, ν i) * ∏ i, ((s i).choose (ν i) : ℝ)) *
      (((∑ a, ∑ b, ((s a : ℝ) / 2 - ν a) * cov a b * ((s b : ℝ) / 2 - ν b)) / 2) ^ r * (∑ i, ((s i : ℝ) / 2 - ν i) * μ i) ^ ((∑ i, s i) - 2 * r) /
        (r.factorial * ((∑ i, s i) - 2 * r).factorial))

theorem mvn_raw {Ω : Type*} [MeasurableSpace Ω] (P : Measure Ω) (X : ι → Ω → ℝ) (μ : ι → ℝ) (cov : ι → ι → ℝ)
    (hpsd : ∀ h : ι → ℝ, 0 ≤ ∑ a, ∑ b, h a * cov a b * h b)
    (hX : ∀ h : ι → ℝ, P.map (fun ω => ∑ i, h i * X i ω) = gaussianReal (∑ i, h i * μ i) (∑ a, ∑ b, h a * cov a b * h b).toNNReal)
    (s : ι → ℕ) : ∫ ω, ∏ i, X i ω ^ s i ∂P = kan μ cov s := by
  set S := ∑ i, s i with hS
  have hSf : (S.factorial : ℝ) ≠ 0 := by positivity
  have hm : ∀ h : ι → ℝ, AEMeasurable (fun ω => ∑ i, h i * X i ω) P := fun h =>
    aemeasurable_of_map_neZero (by rw [hX]; infer_instance)
  have hmom : ∀ h : ι → ℝ, ∫ ω, (∑ i, h i * X i ω) ^ S ∂P = raw (∑ i, h i * μ i) (∑ a, ∑ b, h a * cov a b * h b) S := by
    intro h
    have h1 := raw_moment (∑ i, h i * μ i) (∑ a, ∑ b, h a * cov a b * h b).toNNReal S
    rw [← hX, integral_map (hm h) (by fun_prop), Real.coe_toNNReal _ (hpsd h)] at h1
    exact h1
  have hint : ∀ h : ι → ℝ, Integrable (fun ω => (∑ i, h i * X i ω) ^ S) P := by
    intro h
    have h1 : Integrable (fun x : ℝ => x ^ S) (P.map (fun ω => ∑ i, h i * X i ω)) := by
      rw [hX]
      have := (memLp_id_gaussianReal' (μ := ∑ i, h i * μ i) (v := (∑ a, ∑ b, h a * cov a b * h b).toNNReal) S (by simp)).integrable_norm_pow'
      refine this.mono (by fun_prop) (Filter.Eventually.of_forall fun x => ?_)
      simp
    exact h1.comp_aemeasurable (hm h)
  have hpol : ∀ ω, ∏ i, X i ω ^ s i = ∑ ν ∈ Fintype.piFinset (fun i => range (s i + 1)),
      ((-1) ^ (∑ i, ν i) * ∏ i, ((s i).choose (ν i) : ℝ)) / S.factorial * (∑ i, ((s i : ℝ) / 2 - ν i) * X i ω) ^ S := by
    intro ω
    have := polarisation s (fun i => X i ω)
    rw [← hS] at this
    rw [eq_comm, ← mul_right_inj' hSf, ← this, mul_sum]
    refine sum_congr rfl fun ν _ => ?_
    field_simp
  simp_rw [hpol]
  rw [integral_finsetSum _ (fun ν _ => (hint _).const_mul _), kan]
  refine sum_congr rfl fun ν _ => ?_
  rw [integral_const_mul, hmom, div_mul_eq_mul_div, mul_div_assoc, raw_div, mul_sum]

/-- contract of central_moments_mvn_kan -/
noncomputable def ckan (cov : ι → ι → ℝ) (s : ι → ℕ) : ℝ :=
  if (∑ i, s i) % 2 = 0 then
    (∑ ν ∈ Fintype.piFinset (fun i => range (s i + 1)), ((-1) ^ (∑ i, ν i) * ∏ i, ((s i).choose (ν i) : ℝ)) *
      ((∑ a, ∑ b, ((s a : ℝ) / 2 - ν a) * cov a b * ((s b : ℝ) / 2 - ν b)) / 2) ^ ((∑ i, s i) / 2)) / ((∑ i, s i) / 2).factorial
  else 0

theorem kan_central (cov : ι → ι → ℝ) (s : ι → ℕ) : kan (fun _ => 0) cov s = ckan cov s := by
  unfold kan ckan
  set S := ∑ i, s i with hS
  simp only [mul_zero, sum_const_zero]
  split_ifs with h
  · rw [sum_div]
    refine sum_congr rfl fun ν _ => ?_
    rw [sum_eq_single (S / 2)]
    · have : S - 2 * (S / 2) = 0 := by omega
      rw [this]; simp; ring
    · intro r hr hne
      have : S - 2 * r ≠ 0 := by have := mem_range.mp hr; omega
      rw [zero_pow this]; simp
    · intro hn; exact absurd (mem_range.mpr (by omega)) hn
  · refine sum_eq_zero fun ν _ => sum_eq_zero fun r hr => ?_
    have : S - 2 * r ≠ 0 := by have := mem_range.mp hr; omega
    rw [zero_pow this]; simp

end kan

/-! ### Uniform distributions on intervals -/

/-- the factor of `moments_nd_uniform` for one coordinate -/
theorem uniform_moment (a b : ℝ) (h : a < b) (n : ℕ) : (∫ x in a..b, x ^ n) / (b - a) = (b ^ (n + 1) - a ^ (n + 1)) / ((n + 1) * (b - a)) := by
  rw [integral_pow]
  have : b - a ≠ 0 := by linarith
  field_simp

end Normal
