/-
Property C11: the recursion that the contract of `ldl` states (columns 1 .. n-1 one after the other) yields unit lower
triangular L and D with L D L^T = A, and the completed factor is a Cholesky factor when the pivots are positive.
-/
import Mathlib

open Finset

namespace LDL

variable (A : ℕ → ℕ → ℝ)

structure St where
  l : ℕ → ℕ → ℝ
  d : ℕ → ℝ

/-- the contract of `ldl`: initial state and step of the recursion -/
noncomputable def init : St :=
  ⟨fun i k => if i = k then 1 else if k = 0 ∧ 0 < i then A i 0 / A 0 0 else 0, fun _ => A 0 0⟩

noncomputable def step (t : ℕ) (s : St) : St :=
  let j := t + 1
  let dj := A j j - ∑ k ∈ range j, s.l j k * s.l j k * s.d k
  ⟨fun i c => if c = j ∧ j < i then (A i j - ∑ k ∈ range j, s.l i k * s.l j k * s.d k) / dj else s.l i c,
   fun i => if i = j then dj else s.d i⟩

noncomputable def run : ℕ → St
  | 0 => init A
  | t + 1 => step A t (run t)

/-- columns and pivots that are done do not change -/
lemma l_fixed (t i k : ℕ) (h : k ≤ t) : (run A (t + 1)).l i k = (run A t).l i k := by
  simp only [run, step]
  rw [if_neg]; omega

lemma d_fixed (t k : ℕ) (h : k ≤ t) : (run A (t + 1)).d k = (run A t).d k := by
  simp only [run, step]
  rw [if_neg]; omega

lemma upper (t i k : ℕ) (h : i ≤ k) : (run A t).l i k = if i = k then 1 else 0 := by
  induction t with
  | zero => simp only [run, init]; split_ifs <;> first | rfl | omega
  | succ t ih => 
    simp only [run, step]
    rw [if_neg (by omega), ih]

/-- the defining equations hold for all columns that are done -/
theorem inv (t : ℕ) : ∀ j ≤ t, ((run A t).d j = A j j - ∑ k ∈ range j, (run A t).l j k * (run A t).l j k * (run A t).d k) ∧
    ∀ i, j < i → (run A t).l i j = (A i j - ∑ k ∈ range j, (run A t).l i k * (run A t).l j k * (run A t).d k) / (run A t).d j := by
  induction t with
  | zero =>
    intro j hj
    obtain rfl : j = 0 := by omega
    refine ⟨by simp [run, init], fun i hi => ?_⟩
    simp only [run, init, range_zero, sum_empty, sub_zero]
    rw [if_neg (by omega), if_pos ⟨trivial, hi⟩]
  | succ t ih =>
    intro j hj
    have hs : ∀ i i' : ℕ, ∑ k ∈ range j, (run A (t + 1)).l i k * (run A (t + 1)).l i' k * (run A (t + 1)).d k =
        ∑ k ∈ range j, (run A t).l i k * (run A t).l i' k * (run A t).d k := by
      intro i i'
      refine sum_congr rfl fun k hk => ?_
      have : k ≤ t := by have := mem_range.mp hk; omega
      rw [l_fixed A t i k this, l_fixed A t i' k this, d_fixed A t k this]
    rcases Nat.lt_or_ge t j with h | h
    · obtain rfl : j = t + 1 := by omega
      refine ⟨?_, fun i hi => ?_⟩
      · rw [hs]; simp only [run, step, if_true]
      · rw [hs]; simp only [run, step, if_true]
        rw [if_pos ⟨trivial, hi⟩]
    · obtain ⟨h1, h2⟩ := ih j h
      refine ⟨by rw [hs, d_fixed A t j h, h1], fun i hi => ?_⟩
      rw [hs, d_fixed A t j h, l_fixed A t i j h, h2 i hi]

/-- L D L^T = A on the n x n block; the last pivot may vanish -/
theorem ldl_block (hsym : ∀ i j, A i j = A j i) (t n : ℕ) (hn : n ≤ t + 1) (hd : ∀ j, j + 1 < n → (run A t).d j ≠ 0) (i j : ℕ) (hi : i < n) (hj : j < n) :
    ∑ k ∈ range n, (run A t).l i k * (run A t).d k * (run A t).l j k = A i j := by
  set l := (run A t).l with hl
  set d := (run A t).d with hdd
  have key : ∀ i j, i < n → j ≤ i → ∑ k ∈ range n, l i k * d k * l j k = A i j := by
    intro i j hi hji
    have hsub : ∑ k ∈ range n, l i k * d k * l j k = ∑ k ∈ range (j + 1), l i k * d k * l j k := by
      symm
      refine sum_subset (range_subset_range.mpr (by omega)) fun k _ hk => ?_
      have hk' : j < k := by have := mem_range.not.mp hk; omega
      rw [hl, upper A _ j k hk'.le, if_neg (by omega), mul_zero]
    obtain ⟨h1, h2⟩ := inv A t j (by omega)
    rw [← hl, ← hdd] at h1 h2
    have hjj : l j j = 1 := by rw [hl, upper A _ j j le_rfl, if_pos rfl]
    have hre : ∑ k ∈ range j, l i k * d k * l j k = ∑ k ∈ range j, l i k * l j k * d k := sum_congr rfl fun k _ => by ring
    rw [hsub, sum_range_succ, hre, hjj, mul_one]
    rcases Nat.lt_or_ge j i with h | h
    · rw [h2 i h, div_mul_cancel₀ _ (hd j (by omega))]; ring
    · obtain rfl : i = j := by omega
      rw [hjj, one_mul]
      rw [h1]; ring
  rcases Nat.le_total j i with h | h
  · exact key i j hi h
  · rw [hsym, ← key j i hj h]
    exact sum_congr rfl fun k _ => by ring

/-- L D L^T = A -/
theorem ldl (hsym : ∀ i j, A i j = A j i) (n : ℕ) (hd : ∀ j < n, (run A (n - 1)).d j ≠ 0) (i j : ℕ) (hi : i < n) (hj : j < n) :
    ∑ k ∈ range n, (run A (n - 1)).l i k * (run A (n - 1)).d k * (run A (n - 1)).l j k = A i j :=
  ldl_block A hsym (n - 1) n (by omega) (fun j hj => hd j (by omega)) i j hi hj

/-- the pivots of a positive definite matrix are positive -/
theorem pivots_pos (hsym : ∀ i j, A i j = A j i) (n : ℕ)
    (hpd : ∀ x : ℕ → ℝ, (∃ i < n, x i ≠ 0) → (∀ i, n ≤ i → x i = 0) → 0 < ∑ i ∈ range n, ∑ j ∈ range n, x i * A i j * x j) :
    ∀ j < n, 0 < (run A (n - 1)).d j := by
  intro j
  induction j using Nat.strong_induction_on with
  | _ j ih =>
    intro hj
    set l := (run A (n - 1)).l with hl
    set d := (run A (n - 1)).d with hdd
    have hA : ∀ a b, a < j + 1 → b < j + 1 → ∑ k ∈ range (j + 1), l a k * d k * l b k = A a b := fun a b ha hb =>
      ldl_block A hsym (n - 1) (j + 1) (by omega) (fun k hk => (ih k (by omega) (by omega)).ne') a b ha hb
    let L : Matrix (Fin (j + 1)) (Fin (j + 1)) ℝ := fun a b => l a b
    have hup : ∀ a b : Fin (j + 1), a < b → L a b = 0 := fun a b h => by
      show l a b = 0
      rw [hl, upper A _ a b (le_of_lt h), if_neg (by have := Fin.lt_def.mp h; omega)]
    have hdet : IsUnit L.det := by
      rw [Matrix.det_of_lowerTriangular L (fun a b h => hup a b h)]
      refine isUnit_iff_ne_zero.mpr (prod_ne_zero_iff.mpr fun a _ => ?_)
      show l a a ≠ 0
      rw [hl, upper A _ a a le_rfl, if_pos rfl]; norm_num
    let y : Fin (j + 1) → ℝ := Matrix.vecMul (Pi.single (Fin.last j) 1) L⁻¹
    have hy : Matrix.vecMul y L = Pi.single (Fin.last j) 1 := by
      show Matrix.vecMul (Matrix.vecMul _ L⁻¹) L = _
      rw [Matrix.vecMul_vecMul, Matrix.nonsing_inv_mul L hdet, Matrix.vecMul_one]
    let x : ℕ → ℝ := fun i => if h : i < j + 1 then y ⟨i, h⟩ else 0
    have hx0 : ∀ i, j + 1 ≤ i → x i = 0 := fun i hi => dif_neg (by omega)
    have hxy : ∀ a : Fin (j + 1), x a = y a := fun a => dif_pos a.2
    have hcol : ∀ k, k < j + 1 → ∑ a ∈ range (j + 1), x a * l a k = if k = j then 1 else 0 := by
      intro k hk
      have h := congrFun hy ⟨k, hk⟩
      rw [Matrix.vecMul, dotProduct] at h
      rw [sum_range, sum_congr rfl fun a _ => by rw [hxy a]]
      refine h.trans ?_
      rw [Pi.single_apply]
      simp only [Fin.ext_iff, Fin.val_last]
    have hne : ∃ i < n, x i ≠ 0 := by
      by_contra hcon
      push_neg at hcon
      have := hcol j (by omega)
      rw [if_pos rfl, sum_eq_zero] at this
      · exact zero_ne_one this
      · intro a ha
        rw [hcon a (by have := mem_range.mp ha; omega), zero_mul]
    have hpos := hpd x hne (fun i hi => hx0 i (by omega))
    have hr : ∀ f : ℕ → ℝ, (∀ i, j + 1 ≤ i → f i = 0) → ∑ i ∈ range n, f i = ∑ i ∈ range (j + 1), f i := by
      intro f hf
      symm
      refine sum_subset (range_subset_range.mpr (by omega)) fun k _ hk => hf k ?_
      have := mem_range.not.mp hk; omega
    rw [hr _ (fun i hi => by simp [hx0 i hi])] at hpos
    have hq : ∑ a ∈ range (j + 1), ∑ b ∈ range n, x a * A a b * x b = d j := by
      have h1 : ∀ a ∈ range (j + 1), ∑ b ∈ range n, x a * A a b * x b =
          ∑ k ∈ range (j + 1), (x a * l a k) * (d k * ∑ b ∈ range (j + 1), x b * l b k) := by
        intro a ha
        rw [hr _ (fun i hi => by simp [hx0 i hi])]
        have : ∀ b ∈ range (j + 1), x a * A a b * x b = ∑ k ∈ range (j + 1), x a * l a k * (d k * (x b * l b k)) := by
          intro b hb
          rw [← hA a b (mem_range.mp ha) (mem_range.mp hb), mul_sum, sum_mul]
          exact sum_congr rfl fun k _ => by ring
        rw [sum_congr rfl this, sum_comm]
        exact sum_congr rfl fun k _ => by rw [mul_sum, mul_sum]
      rw [sum_congr rfl h1, sum_comm]
      have h2 : ∀ k ∈ range (j + 1), ∑ a ∈ range (j + 1), (x a * l a k) * (d k * ∑ b ∈ range (j + 1), x b * l b k) =
          if k = j then d j else 0 := by
        intro k hk
        rw [← sum_mul, hcol k (mem_range.mp hk)]
        split_ifs with h
        · rw [h]; ring
        · ring
      rw [sum_congr rfl h2, sum_ite_eq', if_pos (mem_range.mpr (by omega))]
    rw [hq] at hpos
    exact hpos

/-- unit lower triangular -/
theorem unit_lower (n i k : ℕ) (h : i ≤ k) : (run A n).l i k = if i = k then 1 else 0 := upper A n i k h

/-- with positive pivots the completed factor is the Cholesky factor -/
theorem chol (hsym : ∀ i j, A i j = A j i) (n : ℕ) (eps : ℝ) (hd : ∀ j < n, 0 < (run A (n - 1)).d j) (i j : ℕ) (hi : i < n) (hj : j < n) :
    ∑ k ∈ range n, ((run A (n - 1)).l i k * (if (run A (n - 1)).d k < 0 then eps else √((run A (n - 1)).d k))) *
      ((run A (n - 1)).l j k * (if (run A (n - 1)).d k < 0 then eps else √((run A (n - 1)).d k))) = A i j := by
  rw [← ldl A hsym n (fun j hj => (hd j hj).ne') i j hi hj]
  refine sum_congr rfl fun k hk => ?_
  have hk' := hd k (mem_range.mp hk)
  rw [if_neg (not_lt.mpr hk'.le)]
  have := Real.mul_self_sqrt hk'.le
  calc _ = (run A (n - 1)).l i k * (√((run A (n - 1)).d k) * √((run A (n - 1)).d k)) * (run A (n - 1)).l j k := by ring
    _ = _ := by rw [this]

end LDL
