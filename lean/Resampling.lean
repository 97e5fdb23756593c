/-
Property C16: what the contracts of `systematic`, `stratified` and `multinomial` give (ancestor k is the clipped number of
cumulative weights below the k-th position) are valid, sorted ancestors that invert the cumulative weights.
-/
import Mathlib

open Finset

namespace Resampling

/-- cumulative weights -/
noncomputable def cs (w : ℕ → ℝ) (j : ℕ) : ℝ := ∑ r ∈ range (j + 1), w r
/-- searchsorted, side left, of n ascending numbers -/
noncomputable def ss (n : ℕ) (c : ℕ → ℝ) (u : ℝ) : ℕ := ((range n).filter fun j => c j < u).card
/-- the contract: ancestor at position u -/
noncomputable def anc (n : ℕ) (w : ℕ → ℝ) (u : ℝ) : ℕ := min (ss n (cs w) u) (n - 1)

theorem in_range (n : ℕ) (hn : 1 ≤ n) (w : ℕ → ℝ) (u : ℝ) : anc n w u < n := by
  have := min_le_right (ss n (cs w) u) (n - 1)
  unfold anc; omega

theorem anc_mono (n : ℕ) (w : ℕ → ℝ) {u v : ℝ} (h : u ≤ v) : anc n w u ≤ anc n w v := by
  refine min_le_min_right _ (card_le_card fun j hj => ?_)
  rw [mem_filter] at hj ⊢
  exact ⟨hj.1, lt_of_lt_of_le hj.2 h⟩

/-- as many cumulative weights lie below u as the index of the first that reaches it -/
theorem ss_first (n : ℕ) (c : ℕ → ℝ) (hc : Monotone c) (u : ℝ) (a : ℕ) (ha : a < n) (h1 : u ≤ c a) (h2 : ∀ j < a, c j < u) : ss n c u = a := by
  have : (range n).filter (fun j => c j < u) = range a := by
    ext j
    rw [mem_filter, mem_range, mem_range]
    constructor
    · rintro ⟨_, hj⟩
      by_contra hcon
      exact absurd hj (not_lt.mpr (h1.trans (hc (not_lt.mp hcon))))
    · intro hj
      exact ⟨by omega, h2 j hj⟩
  rw [ss, this, card_range]

/-- the ancestor is the first index whose cumulative weight reaches the position (the total weight reaches it) -/
theorem inverts (n : ℕ) (w : ℕ → ℝ) (hw : ∀ j, 0 ≤ w j) (u : ℝ) (hn : 1 ≤ n) (hu : u ≤ cs w (n - 1)) :
    u ≤ cs w (anc n w u) ∧ ∀ j < anc n w u, cs w j < u := by
  have hc : Monotone (cs w) := by
    refine monotone_nat_of_le_succ fun j => ?_
    rw [cs, cs, sum_range_succ _ (j + 1)]
    linarith [hw (j + 1)]
  have hex : ∃ a, u ≤ cs w a := ⟨n - 1, hu⟩
  classical
  have ha := Nat.find_spec hex
  have hlt : ∀ j < Nat.find hex, cs w j < u := fun j hj => not_le.mp (Nat.find_min hex hj)
  have hle : Nat.find hex ≤ n - 1 := Nat.find_min' hex hu
  have := ss_first n (cs w) hc u (Nat.find hex) (by omega) ha hlt
  have he : anc n w u = Nat.find hex := by rw [anc, this, min_eq_left hle]
  rw [he]
  exact ⟨ha, hlt⟩

/-- a particle without weight is never chosen at a positive position -/
theorem zero_weight (n : ℕ) (w : ℕ → ℝ) (hw : ∀ j, 0 ≤ w j) (u : ℝ) (hn : 1 ≤ n) (h0 : 0 < u) (hu : u ≤ cs w (n - 1)) : 0 < w (anc n w u) := by
  obtain ⟨h1, h2⟩ := inverts n w hw u hn hu
  rcases Nat.eq_zero_or_pos (anc n w u) with h | h
  · rw [h] at h1 ⊢
    rw [cs, zero_add, sum_range_one] at h1
    linarith
  · have h3 := h2 (anc n w u - 1) (by omega)
    have h4 : cs w (anc n w u) = cs w (anc n w u - 1) + w (anc n w u) := by
      obtain ⟨a, ha⟩ : ∃ a, anc n w u = a + 1 := ⟨anc n w u - 1, by omega⟩
      rw [ha, cs, sum_range_succ]; rfl
    linarith

/-! the positions of the three schemes are non-decreasing -/

theorem systematic (n : ℕ) (u : ℝ) {a b : ℕ} (h : a ≤ b) : ((a : ℝ) + u) / n ≤ (b + u) / n := by
  have : (a : ℝ) ≤ b := by exact_mod_cast h
  exact div_le_div_of_nonneg_right (by linarith) (Nat.cast_nonneg n)

theorem stratified (n : ℕ) (u : ℕ → ℝ) (h0 : ∀ k, 0 ≤ u k) (h1 : ∀ k, u k < 1) {a b : ℕ} (h : a ≤ b) : ((a : ℝ) + u a) / n ≤ (b + u b) / n := by
  refine div_le_div_of_nonneg_right ?_ (Nat.cast_nonneg n)
  rcases Nat.eq_or_lt_of_le h with h | h
  · rw [h]
  · have : (a : ℝ) + 1 ≤ b := by exact_mod_cast h
    linarith [h0 b, h1 a]

/-- partial sums of exponential draws over their total -/
theorem multinomial (n : ℕ) (u : ℕ → ℝ) (h0 : ∀ k, 0 ≤ u k) (h1 : ∀ k, u k ≤ 1) {a b : ℕ} (h : a ≤ b) :
    (∑ r ∈ range (a + 1), -Real.log (u r)) / (∑ r ∈ range (n + 1), -Real.log (u r)) ≤
    (∑ r ∈ range (b + 1), -Real.log (u r)) / (∑ r ∈ range (n + 1), -Real.log (u r)) := by
  have hp : ∀ r, 0 ≤ -Real.log (u r) := fun r => neg_nonneg.mpr (Real.log_nonpos (h0 r) (h1 r))
  refine div_le_div_of_nonneg_right ?_ (sum_nonneg fun r _ => hp r)
  exact sum_le_sum_of_subset_of_nonneg (range_subset_range.mpr (by omega)) fun r _ _ => hp r

end Resampling
