/-
Property C06: the raw, central and scaled representations describe the same filtering distribution.

The contracts of `moment_quadrature`, `moment_quadrature_nd` and of the six moment filters (C03-C05, C07) state, for
all inputs, the recursion each function computes.  The lemmas below take exactly these recursions as definitions and
derive the equivalence.
-/
import Mathlib

open Matrix Finset

namespace Equivalence

set_option linter.unusedSectionVars false
set_option linter.deprecated false

variable {n : Type*} [Fintype n] [DecidableEq n]

/-! ### 1. The matrix of the quadrature under a change of the polynomial basis -/

section cholesky
variable [LinearOrder n]

/-- lower triangular with a positive diagonal: what `cholesky` returns -/
def LowerPos (R : Matrix n n ℝ) : Prop := (∀ i j, i < j → R i j = 0) ∧ ∀ i, 0 < R i i

lemma LowerPos.mul {A B : Matrix n n ℝ} (hA : LowerPos A) (hB : LowerPos B) : LowerPos (A * B) := by
  refine ⟨fun i j h => ?_, fun i => ?_⟩
  · rw [mul_apply]
    refine sum_eq_zero fun k _ => ?_
    rcases lt_or_ge i k with hk | hk
    · rw [hA.1 i k hk, zero_mul]
    · rw [hB.1 k j (lt_of_le_of_lt hk h), mul_zero]
  · rw [mul_apply, sum_eq_single i]
    · exact mul_pos (hA.2 i) (hB.2 i)
    · intro k _ hk
      rcases lt_or_gt_of_ne hk with h | h
      · rw [hB.1 k i h, mul_zero]
      · rw [hA.1 i k h, zero_mul]
    · simp

lemma LowerPos.blockTriangular {A : Matrix n n ℝ} (hA : LowerPos A) : A.BlockTriangular OrderDual.toDual := by
  intro i j h
  exact hA.1 i j h

lemma LowerPos.isUnit_det {A : Matrix n n ℝ} (hA : LowerPos A) : IsUnit A.det := by
  rw [det_of_lowerTriangular A hA.blockTriangular]
  exact isUnit_iff_ne_zero.mpr (prod_ne_zero_iff.mpr fun i _ => (hA.2 i).ne')

lemma LowerPos.inv {A : Matrix n n ℝ} (hA : LowerPos A) : LowerPos A⁻¹ := by
  have hdet := hA.isUnit_det
  have : Invertible A := A.invertibleOfIsUnitDet hdet
  have hbt : (A⁻¹).BlockTriangular OrderDual.toDual := blockTriangular_inv_of_blockTriangular hA.blockTriangular
  have hz : ∀ i j, i < j → A⁻¹ i j = 0 := fun i j h => hbt h
  refine ⟨hz, fun i => ?_⟩
  have h1 : (A * A⁻¹) i i = 1 := by rw [mul_nonsing_inv A hdet, one_apply_eq]
  rw [mul_apply, sum_eq_single i] at h1
  · have := hA.2 i
    by_contra hneg
    rw [not_lt] at hneg
    nlinarith
  · intro k _ hk
    rcases lt_or_gt_of_ne hk with h | h
    · rw [hz k i h, mul_zero]
    · rw [hA.1 i k h, zero_mul]
  · simp

/-- an orthogonal lower triangular matrix with a positive diagonal is the identity -/
lemma LowerPos.eq_one {M : Matrix n n ℝ} (hM : LowerPos M) (ho : M * Mᵀ = 1) : M = 1 := by
  have hinv : M⁻¹ = Mᵀ := inv_eq_right_inv ho
  have hi := hM.inv
  rw [hinv] at hi
  have hz : ∀ i j, i ≠ j → M i j = 0 := by
    intro i j h
    rcases lt_or_gt_of_ne h with h | h
    · exact hM.1 i j h
    · exact hi.1 j i h
  ext i j
  by_cases h : i = j
  · subst h
    rw [one_apply_eq]
    have h1 : (M * Mᵀ) i i = 1 := by rw [ho, one_apply_eq]
    rw [mul_apply, sum_eq_single i] at h1
    · rw [transpose_apply] at h1
      have := hM.2 i
      nlinarith
    · intro k _ hk
      rw [hz i k (Ne.symm hk), zero_mul]
    · simp
  · rw [hz i j h, one_apply_ne h]

/-- the Cholesky factor is unique -/
theorem cholesky_unique {R S : Matrix n n ℝ} (hR : LowerPos R) (hS : LowerPos S) (h : R * Rᵀ = S * Sᵀ) : R = S := by
  have hSd := hS.isUnit_det
  have hM : LowerPos (S⁻¹ * R) := hS.inv.mul hR
  have ho : (S⁻¹ * R) * (S⁻¹ * R)ᵀ = 1 := by
    rw [transpose_mul, Matrix.mul_assoc, ← Matrix.mul_assoc R, h, Matrix.mul_assoc S, ← Matrix.mul_assoc S⁻¹,
      nonsing_inv_mul S hSd, Matrix.one_mul, transpose_nonsing_inv, mul_nonsing_inv]
    rwa [det_transpose]
  have h1 := hM.eq_one ho
  calc R = S * (S⁻¹ * R) := by rw [← Matrix.mul_assoc, mul_nonsing_inv S hSd, Matrix.one_mul]
    _ = S := by rw [h1, Matrix.mul_one]

/-- The matrix K = R⁻¹ H R⁻ᵀ that the quadrature diagonalises.  `T` is the change of basis from the monomials to the
shifted and scaled monomials. -/
theorem quadrature_matrix {G H G' H' R R' T : Matrix n n ℝ} {μ s : ℝ} (hT : LowerPos T)
    (hR : LowerPos R) (hR' : LowerPos R') (hG : R * Rᵀ = G) (hG' : R' * R'ᵀ = G')
    (eG : G' = T * G * Tᵀ) (eH : s • H' = T * (H - μ • G) * Tᵀ) :
    R⁻¹ * H * (Rᵀ)⁻¹ = s • (R'⁻¹ * H' * (R'ᵀ)⁻¹) + μ • (1 : Matrix n n ℝ) := by
  have hTR : R' = T * R := by
    refine cholesky_unique hR' (hT.mul hR) ?_
    rw [hG', eG, ← hG, transpose_mul]
    simp only [Matrix.mul_assoc]
  have dT := hT.isUnit_det
  have dR := hR.isUnit_det
  have dTt : IsUnit (Tᵀ).det := by rwa [det_transpose]
  have dRt : IsUnit (Rᵀ).det := by rwa [det_transpose]
  have e1 : R'⁻¹ = R⁻¹ * T⁻¹ := by rw [hTR, Matrix.mul_inv_rev]
  have e2 : (R'ᵀ)⁻¹ = (Tᵀ)⁻¹ * (Rᵀ)⁻¹ := by rw [hTR, transpose_mul, Matrix.mul_inv_rev]
  have key : s • (R'⁻¹ * H' * (R'ᵀ)⁻¹) = R⁻¹ * (H - μ • G) * (Rᵀ)⁻¹ := by
    calc s • (R'⁻¹ * H' * (R'ᵀ)⁻¹) = R'⁻¹ * (s • H') * (R'ᵀ)⁻¹ := by
            rw [Matrix.mul_smul, Matrix.smul_mul]
      _ = R⁻¹ * (T⁻¹ * T) * (H - μ • G) * (Tᵀ * (Tᵀ)⁻¹) * (Rᵀ)⁻¹ := by
            rw [eH, e1, e2]; simp only [Matrix.mul_assoc]
      _ = _ := by rw [nonsing_inv_mul T dT, mul_nonsing_inv Tᵀ dTt, Matrix.mul_one, Matrix.mul_one]
  have hI : R⁻¹ * G * (Rᵀ)⁻¹ = 1 := by
    rw [← hG, ← Matrix.mul_assoc, nonsing_inv_mul R dR, Matrix.one_mul, mul_nonsing_inv Rᵀ dRt]
  rw [key, Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_smul, Matrix.smul_mul, hI, sub_add_cancel]

/-- Moment matrices of one linear functional in two triangularly related bases: `p` and `q a = ∑ T a b p b`, with
`x = s u + μ` (`x` the coordinate, `u` the standardised coordinate). -/
theorem moment_matrices {F : Type*} [CommRing F] [Algebra ℝ F] (Λ : F →ₗ[ℝ] ℝ) (p q : n → F) (x u : F)
    (T : Matrix n n ℝ) {μ s : ℝ} (hq : ∀ a, q a = ∑ b, T a b • p b) (hx : s • u = x - algebraMap ℝ F μ) :
    (of fun a b => Λ (q a * q b)) = T * (of fun a b => Λ (p a * p b)) * Tᵀ ∧
    s • (of fun a b => Λ (u * (q a * q b))) =
      T * ((of fun a b => Λ (x * (p a * p b))) - μ • (of fun a b => Λ (p a * p b))) * Tᵀ := by
  have hprod : ∀ a b, q a * q b = ∑ c, ∑ d, (T a c * T b d) • (p c * p d) := by
    intro a b
    rw [hq a, hq b, sum_mul_sum]
    refine sum_congr rfl fun c _ => sum_congr rfl fun d _ => ?_
    rw [smul_mul_smul_comm]
  constructor
  · ext a b
    simp only [of_apply, mul_apply, transpose_apply, hprod, map_sum, map_smul, smul_eq_mul, sum_mul]
    rw [sum_comm]
    refine sum_congr rfl fun d _ => sum_congr rfl fun c _ => ?_
    ring
  · ext a b
    have h1 : s * Λ (u * (q a * q b)) = Λ ((x - algebraMap ℝ F μ) * (q a * q b)) := by
      rw [← hx, smul_mul_assoc, map_smul, smul_eq_mul]
    have h2 : ∀ c d, Λ ((x - algebraMap ℝ F μ) * (p c * p d)) = Λ (x * (p c * p d)) - μ * Λ (p c * p d) := by
      intro c d
      rw [sub_mul, map_sub, ← Algebra.smul_def, map_smul, smul_eq_mul]
    rw [Matrix.smul_apply, of_apply, smul_eq_mul, h1]
    simp only [of_apply, smul_eq_mul, mul_apply, Matrix.smul_apply, transpose_apply, Matrix.sub_apply, hprod,
      mul_sum, map_sum, mul_smul_comm, map_smul, h2, sum_mul]
    rw [sum_comm]
    refine sum_congr rfl fun d _ => sum_congr rfl fun c _ => ?_
    ring

end cholesky

/-! ### 2. The quadrature is a function of that matrix, whatever eigenvectors are returned -/

/-- `V` orthogonal, `K V = V diag λ`: what `eigh` returns -/
structure Eig (K V : Matrix n n ℝ) (l : n → ℝ) : Prop where
  orth : V * Vᵀ = 1
  eig : K * V = V * diagonal l

lemma Eig.orth' {K V : Matrix n n ℝ} {l : n → ℝ} (h : Eig K V l) : Vᵀ * V = 1 := mul_eq_one_comm.mp h.orth

/-- nodes of an affine image: the eigenvalues are mapped back by `s · + μ` -/
theorem Eig.affine {K K' V : Matrix n n ℝ} {l : n → ℝ} {μ s : ℝ} (h : Eig K' V l) (hK : K = s • K' + μ • (1 : Matrix n n ℝ)) :
    Eig K V (fun k => s * l k + μ) := by
  refine ⟨h.orth, ?_⟩
  rw [hK, Matrix.add_mul, Matrix.smul_mul, h.eig, Matrix.smul_mul, Matrix.one_mul]
  ext i j
  simp [mul_diagonal]
  ring

/-- functional calculus does not depend on the eigendecomposition -/
theorem Eig.unique {K V W : Matrix n n ℝ} {l m : n → ℝ} (h : Eig K V l) (h' : Eig K W m) (f : ℝ → ℝ) :
    V * diagonal (f ∘ l) * Vᵀ = W * diagonal (f ∘ m) * Wᵀ := by
  set M := Wᵀ * V with hM
  have hK1 : M * diagonal l = diagonal m * M := by
    have a1 : Wᵀ * (K * V) = M * diagonal l := by rw [h.eig, ← Matrix.mul_assoc]
    have a2 : Wᵀ * K = diagonal m * Wᵀ := by
      have : Wᵀ * (K * W) * Wᵀ = Wᵀ * (W * diagonal m) * Wᵀ := by rw [h'.eig]
      rw [← Matrix.mul_assoc, Matrix.mul_assoc, h'.orth, Matrix.mul_one, ← Matrix.mul_assoc, h'.orth', Matrix.one_mul] at this
      exact this
    rw [← a1, ← Matrix.mul_assoc, a2, Matrix.mul_assoc]
  have hf : M * diagonal (f ∘ l) = diagonal (f ∘ m) * M := by
    ext i j
    have := congrFun (congrFun hK1 i) j
    rw [mul_diagonal, diagonal_mul] at this ⊢
    by_cases e : l j = m i
    · simp [e, mul_comm]
    · have : M i j = 0 := by
        have h0 : M i j * (l j - m i) = 0 := by rw [mul_sub]; linarith
        exact (mul_eq_zero.mp h0).resolve_right (sub_ne_zero.mpr e)
      simp [this]
  calc V * diagonal (f ∘ l) * Vᵀ = (W * Wᵀ) * V * diagonal (f ∘ l) * Vᵀ := by rw [h'.orth, Matrix.one_mul]
    _ = W * (M * diagonal (f ∘ l)) * Vᵀ := by simp only [hM, Matrix.mul_assoc]
    _ = W * diagonal (f ∘ m) * Wᵀ * (V * Vᵀ) := by rw [hf]; simp only [hM, Matrix.mul_assoc]
    _ = _ := by rw [h.orth, Matrix.mul_one]

lemma Eig.unique_vec {K V W : Matrix n n ℝ} {l m : n → ℝ} (h : Eig K V l) (h' : Eig K W m) (F : ℝ → n → ℝ) (a : n) :
    ∑ k, V a k * ∑ b, V b k * F (l k) b = ∑ k, W a k * ∑ b, W b k * F (m k) b := by
  have key : ∀ (V : Matrix n n ℝ) (l : n → ℝ), ∑ k, V a k * ∑ b, V b k * F (l k) b =
      ∑ b, (V * diagonal ((fun t => F t b) ∘ l) * Vᵀ) a b := by
    intro V l
    simp only [mul_apply, transpose_apply, mul_sum]
    rw [sum_comm]
    refine sum_congr rfl fun b _ => sum_congr rfl fun k _ => ?_
    simp only [diagonal_apply, mul_ite, mul_zero, sum_ite_eq', mem_univ, if_true, Function.comp]
    ring
  rw [key V l, key W m]
  exact sum_congr rfl fun b _ => by rw [h.unique h' fun t => F t b]

/-- One dimension: the quadrature `∑ (V 0 k)² f(λ k)` (`o` is the index of the constant polynomial) -/
theorem quad_1d {K V W : Matrix n n ℝ} {l m : n → ℝ} (h : Eig K V l) (h' : Eig K W m) (o : n) (f : ℝ → ℝ) :
    ∑ k, V o k ^ 2 * f (l k) = ∑ k, W o k ^ 2 * f (m k) := by
  have e : ∀ (V : Matrix n n ℝ) (l : n → ℝ), ∑ k, V o k ^ 2 * f (l k) = (V * diagonal (f ∘ l) * Vᵀ) o o := by
    intro V l
    rw [mul_apply]
    refine sum_congr rfl fun k _ => ?_
    rw [mul_diagonal, transpose_apply, Function.comp]
    ring
  rw [e V l, e W m, h.unique h' f]

/-- Several dimensions: the sum over all combinations of eigenpairs (V₁,λ₁),…,(V_d,λ_d) of
`V₁[o,k₁] ⟨V₁[:,k₁],V₂[:,k₂]⟩ ⋯ ⟨V_{d-1},V_d⟩ V_d[o,k_d] f(λ₁ k₁,…,λ_d k_d)`, as `moment_quadrature_nd` forms it. -/
def chain (o : n) (u : n → ℝ) : List (Matrix n n ℝ × (n → ℝ)) → (List ℝ → ℝ) → ℝ
  | [], f => u o * f []
  | (V, l) :: rest, f => ∑ k, (∑ b, u b * V b k) * chain o (fun b => V b k) rest (fun xs => f (l k :: xs))

lemma chain_linear (o : n) (u : n → ℝ) (L : List (Matrix n n ℝ × (n → ℝ))) (f : List ℝ → ℝ) :
    chain o u L f = ∑ b, u b * chain o (Pi.single b 1) L f := by
  cases L with
  | nil => simp [chain, Pi.single_apply]
  | cons P rest =>
    obtain ⟨V, l⟩ := P
    simp only [chain, Pi.single_apply, ite_mul, one_mul, zero_mul, sum_ite_eq', mem_univ, if_true, mul_sum, sum_mul]
    rw [sum_comm]
    exact sum_congr rfl fun b _ => sum_congr rfl fun k _ => by ring

theorem quad_nd (o : n) : ∀ (Ks : List (Matrix n n ℝ)) (L L' : List (Matrix n n ℝ × (n → ℝ)))
    (_ : List.Forall₂ (fun K P => Eig K P.1 P.2) Ks L) (_ : List.Forall₂ (fun K P => Eig K P.1 P.2) Ks L')
    (u : n → ℝ) (f : List ℝ → ℝ), chain o u L f = chain o u L' f := by
  intro Ks
  induction Ks with
  | nil =>
    intro L L' h h' u f
    cases h; cases h'; rfl
  | cons K Ks ih =>
    intro L L' h h' u f
    cases h with
    | cons h1 h2 =>
    cases h' with
    | cons h1' h2' =>
    rename_i P rest P' rest'
    obtain ⟨V, l⟩ := P
    obtain ⟨W, m⟩ := P'
    have e : ∀ (V : Matrix n n ℝ) (l : n → ℝ) (R : List (Matrix n n ℝ × (n → ℝ))), chain o u ((V, l) :: R) f =
        ∑ a, u a * ∑ k, V a k * ∑ b, V b k * (fun t b => chain o (Pi.single b 1) R (fun xs => f (t :: xs))) (l k) b := by
      intro V l R
      simp only [chain, mul_sum (s := univ)]
      rw [sum_comm]
      refine sum_congr rfl fun k _ => ?_
      rw [chain_linear, sum_mul]
      refine sum_congr rfl fun a _ => ?_
      rw [mul_sum]
      refine sum_congr rfl fun b _ => ?_
      ring
    rw [e V l rest, e W m rest']
    refine sum_congr rfl fun a _ => ?_
    have hF : (fun t b => chain o (Pi.single b 1) rest (fun xs => f (t :: xs))) =
        (fun t b => chain o (Pi.single b 1) rest' (fun xs => f (t :: xs))) := by
      funext t b
      exact ih rest rest' h2 h2' _ _
    rw [hF]
    exact congrArg (u a * ·) (Eig.unique_vec (V := V) (l := l) (W := W) (m := m) h1 h1'
      (fun t b => chain o (Pi.single b 1) rest' (fun xs => f (t :: xs))) a)

/-! ### 3. Shifted and scaled monomials are triangular in the monomials -/

theorem shifted_monomial (x μ s : ℝ) (k : ℕ) :
    ((x - μ) / s) ^ k = ∑ j ∈ range (k + 1), ((k.choose j : ℝ) * (-μ) ^ (k - j) / s ^ k) * x ^ j := by
  rw [div_pow, sub_eq_add_neg, add_pow, sum_div]
  refine sum_congr rfl fun j _ => ?_
  ring

/-- several dimensions: coefficients are products; non-zero only for `β ≤ α` componentwise, positive for `β = α` -/
theorem shifted_monomial_nd {d : ℕ} (x μ s : Fin d → ℝ) (α : Fin d → ℕ) :
    ∏ i, ((x i - μ i) / s i) ^ α i = ∑ β ∈ Fintype.piFinset fun i => range (α i + 1),
      (∏ i, ((α i).choose (β i) : ℝ) * (-μ i) ^ (α i - β i) / s i ^ α i) * ∏ i, x i ^ β i := by
  simp only [shifted_monomial]
  rw [prod_univ_sum]
  exact sum_congr rfl fun β _ => prod_mul_distrib

/-! ### 4. The filters -/

section filter
variable {E A Θ Y : Type*}

/-- A quadrature as the functional `f ↦ ∑ w f(x)` -/
abbrev Fun (E : Type*) := (E → ℝ) → ℝ

/-- One step of a moment filter in the representation `basis`: the contract of the scan body.
`quad` the quadrature of moments `m` with parameters `θ`; `κ x` the conditional expectation given `x`;
`g y` the likelihood; `par`, `par'` the parameters (mean, scale) computed from the quadratures. -/
noncomputable def step (basis : Θ → A → E → ℝ) (quad : Θ → (A → ℝ) → Fun E) (κ : E → Fun E) (g : Y → E → ℝ)
    (par : Fun E → Θ) (par' : Y → Fun E → Θ) (st : Θ × (A → ℝ) × ℝ) (y : Y) : Θ × (A → ℝ) × ℝ :=
  let Q := quad st.1 st.2.1
  let θ := par Q
  let Q' := quad θ (fun a => Q fun x => κ x (basis θ a))
  let Z := Q' (g y)
  let θ' := par' y Q'
  (θ', (fun a => Q' (fun x => basis θ' a x * g y x) / Z), st.2.2 - Real.log Z)

/-- the same step on the distribution itself (a functional), with no representation -/
noncomputable def pred (Q : Fun E → Fun E) (κ : E → Fun E) (D : Fun E) : Fun E := fun f => Q D fun x => κ x f

noncomputable def upd (Q : Fun E → Fun E) (g : Y → E → ℝ) (y : Y) (P : Fun E) : Fun E :=
  fun f => Q P (fun x => f x * g y x) / Q P (g y)

noncomputable def dstep (Q : Fun E → Fun E) (κ : E → Fun E) (g : Y → E → ℝ) (st : Fun E × ℝ) (y : Y) : Fun E × ℝ :=
  (upd Q g y (pred Q κ st.1), st.2 - Real.log (Q (pred Q κ st.1) (g y)))

/-- Every representation follows the distribution: if the quadrature recovers the same measure from each representation
(sections 1-3; `Adm θ D`: the scale is not zero and the moment matrix of `D` is positive definite), the moments are the moments of the common distribution at every time, and the likelihood agrees. -/
theorem filter_follows (basis : Θ → A → E → ℝ) (quad : Θ → (A → ℝ) → Fun E) (Q : Fun E → Fun E) (κ : E → Fun E)
    (g : Y → E → ℝ) (par : Fun E → Θ) (par' : Y → Fun E → Θ)
    (Adm : Θ → Fun E → Prop) (hquad : ∀ θ (D : Fun E), Adm θ D → quad θ (fun a => D (basis θ a)) = Q D)
    (hpred : ∀ θ D, Adm θ D → Adm (par (Q D)) (pred Q κ D))
    (hupd : ∀ θ D y, Adm θ D → Adm (par' y (Q (pred Q κ D))) (upd Q g y (pred Q κ D)))
    (ys : List Y) (θ0 : Θ) (D0 : Fun E) (c : ℝ) (h0 : Adm θ0 D0) :
    ∃ θ, List.foldl (step basis quad κ g par par') (θ0, (fun a => D0 (basis θ0 a)), c) ys =
      (θ, (fun a => (List.foldl (dstep Q κ g) (D0, c) ys).1 (basis θ a)), (List.foldl (dstep Q κ g) (D0, c) ys).2) := by
  induction ys generalizing θ0 D0 c with
  | nil => exact ⟨θ0, rfl⟩
  | cons y ys ih =>
    simp only [List.foldl_cons]
    have hs : step basis quad κ g par par' (θ0, (fun a => D0 (basis θ0 a)), c) y =
        (par' y (Q (pred Q κ D0)), (fun a => (dstep Q κ g (D0, c) y).1 (basis (par' y (Q (pred Q κ D0))) a)),
          (dstep Q κ g (D0, c) y).2) := by
      have h1 := hquad θ0 D0 h0
      have h2 : quad (par (Q D0)) (fun a => Q D0 fun x => κ x (basis (par (Q D0)) a)) = Q (pred Q κ D0) :=
        hquad (par (Q D0)) (pred Q κ D0) (hpred θ0 D0 h0)
      simp only [step, dstep, upd, h1, h2]
    rw [hs]
    exact ih _ _ _ (hupd θ0 D0 y h0)

/-- two representations have the same likelihood and are moments of the same distribution -/
theorem same_distribution {A' Θ' : Type*} (basis : Θ → A → E → ℝ) (quad : Θ → (A → ℝ) → Fun E)
    (basis' : Θ' → A' → E → ℝ) (quad' : Θ' → (A' → ℝ) → Fun E) (Q : Fun E → Fun E) (κ : E → Fun E)
    (g : Y → E → ℝ) (par : Fun E → Θ) (par' : Y → Fun E → Θ) (qar : Fun E → Θ') (qar' : Y → Fun E → Θ')
    (Adm : Θ → Fun E → Prop) (hquad : ∀ θ (D : Fun E), Adm θ D → quad θ (fun a => D (basis θ a)) = Q D)
    (hpred : ∀ θ D, Adm θ D → Adm (par (Q D)) (pred Q κ D))
    (hupd : ∀ θ D y, Adm θ D → Adm (par' y (Q (pred Q κ D))) (upd Q g y (pred Q κ D)))
    (Adm' : Θ' → Fun E → Prop) (hquad' : ∀ θ (D : Fun E), Adm' θ D → quad' θ (fun a => D (basis' θ a)) = Q D)
    (hpred' : ∀ θ D, Adm' θ D → Adm' (qar (Q D)) (pred Q κ D))
    (hupd' : ∀ θ D y, Adm' θ D → Adm' (qar' y (Q (pred Q κ D))) (upd Q g y (pred Q κ D)))
    (ys : List Y) (θ0 : Θ) (θ0' : Θ') (D0 : Fun E) (c : ℝ) (h0 : Adm θ0 D0) (h0' : Adm' θ0' D0) :
    ∃ (D : Fun E) (l : ℝ) (θ : Θ) (θ' : Θ'),
      List.foldl (step basis quad κ g par par') (θ0, (fun a => D0 (basis θ0 a)), c) ys = (θ, (fun a => D (basis θ a)), l) ∧
      List.foldl (step basis' quad' κ g qar qar') (θ0', (fun a => D0 (basis' θ0' a)), c) ys =
        (θ', (fun a => D (basis' θ' a)), l) := by
  obtain ⟨θ, h⟩ := filter_follows basis quad Q κ g par par' Adm hquad hpred hupd ys θ0 D0 c h0
  obtain ⟨θ', h'⟩ := filter_follows basis' quad' Q κ g qar qar' Adm' hquad' hpred' hupd' ys θ0' D0 c h0'
  exact ⟨_, _, θ, θ', h, h'⟩

end filter

end Equivalence
