import Mathlib

/-! Forward and backward evaluation of the three-term recurrence of the Hermite polynomials agree
    (the alternative forms of the contract of `hermite_probabilist`). -/

namespace Hermite

/-- top-down recursion, as in the contract -/
def he (x : ℝ) : ℕ → ℝ
  | 0 => 1
  | 1 => x
  | n + 2 => x * he x (n + 1) - (n + 1) * he x n

/-- bottom-up pair (He_k, He_{k+1}) -/
def pair (x : ℝ) : ℕ → ℝ × ℝ
  | 0 => (1, x)
  | k + 1 => ((pair x k).2, x * (pair x k).2 - (k + 1) * (pair x k).1)

theorem hermite_pair (x : ℝ) (k : ℕ) : pair x k = (he x k, he x (k + 1)) := by
  induction k with
  | zero => simp [pair, he]
  | succ k ih => simp [pair, ih, he]

theorem forward_n (x : ℝ) (n : ℕ) : (pair x n).1 = he x n := by rw [hermite_pair]

theorem forward_n1 (x : ℝ) (n : ℕ) (h : 0 < n) : (pair x (n - 1)).2 = he x n := by
  rw [hermite_pair]; simp only; congr 1; omega

end Hermite
