/-
Lemmas behind the contracts of mfs/multi_dims/multi_indices.py (properties C01, C02).

 V d l u           the multi-indices x : Fin d → ℕ with l ≤ |x| ≤ u
 card_V            its size is the closed form in the contract of sizeof_multi_indices
 rank_formula      the number of graded-lexicographic predecessors is the formula in the contract of
                   graded_lexico_indexof_multi_index
 next_covers       NEXT, the contract of _next_graded_lexico_multi_index, is the immediate successor
 enumeration       iterating NEXT from l e_{d-1} lists V d l u in order, every element exactly once
-/
import Mathlib

open Finset

namespace MultiIndex

abbrev deg {d : ℕ} (x : Fin d → ℕ) : ℕ := ∑ i, x i

noncomputable def V (d l u : ℕ) : Finset (Fin d → ℕ) :=
  (Fintype.piFinset fun _ => range (u + 1)).filter (fun x => l ≤ deg x ∧ deg x ≤ u)

theorem mem_V {d l u : ℕ} {x : Fin d → ℕ} : x ∈ V d l u ↔ l ≤ deg x ∧ deg x ≤ u := by
  unfold V
  simp only [mem_filter, Fintype.mem_piFinset, mem_range]
  constructor
  · exact fun h => h.2
  · intro h
    refine ⟨fun a => ?_, h⟩
    have : x a ≤ deg x := single_le_sum (f := x) (fun i _ => Nat.zero_le _) (mem_univ a)
    omega

theorem V_succ (d u : ℕ) :
    V (d + 1) 0 u = (range (u + 1)).biUnion fun a => (V d 0 (u - a)).image (Fin.cons a) := by
  ext x
  simp only [mem_V, mem_biUnion, mem_range, mem_image, deg, Fin.sum_univ_succ]
  constructor
  · intro h
    refine ⟨x 0, by omega, Fin.tail x, ?_, Fin.cons_self_tail x⟩
    simp only [Fin.tail]
    omega
  · rintro ⟨a, ha, t, ht, rfl⟩
    simp only [Fin.cons_zero, Fin.cons_succ]
    omega

theorem card_V0 (d u : ℕ) : (V d 0 u).card = (u + d).choose u := by
  induction d generalizing u with
  | zero =>
    have : V 0 0 u = {Fin.elim0} := by
      ext x
      simp [mem_V, deg, Subsingleton.elim x Fin.elim0]
    simp [this]
  | succ d ih =>
    rw [V_succ, card_biUnion]
    · have h1 : ∀ a ∈ range (u + 1), ((V d 0 (u - a)).image (Fin.cons (α := fun _ => ℕ) a)).card
          = (u - a + d).choose d := by
        intro a _
        rw [card_image_of_injective _ (Fin.cons_right_injective (α := fun _ => ℕ) a), ih]
        rw [Nat.choose_symm_add]
      rw [sum_congr rfl h1]
      have h2 := sum_range_reflect (fun i => (i + d).choose d) (u + 1)
      have h3 : ∑ j ∈ range (u + 1), (u - j + d).choose d
          = ∑ j ∈ range (u + 1), (u + 1 - 1 - j + d).choose d := by simp
      rw [h3, h2, Nat.sum_range_add_choose]
      rw [show u + (d + 1) = u + d + 1 by ring, ← Nat.choose_symm_of_eq_add (n := u + d + 1) (a := u) (b := d + 1) (by ring)]
    · intro a _ b _ hab
      rw [Function.onFun, disjoint_left]
      rintro x hx hy
      simp only [mem_image] at hx hy
      obtain ⟨t, _, rfl⟩ := hx
      obtain ⟨s, _, hs⟩ := hy
      have := congrFun hs 0
      simp at this
      omega

/-- the closed form of sizeof_multi_indices -/
theorem card_V (d l u : ℕ) (h : l ≤ u) :
    (V d l u).card = (u + d).choose u - (if 0 < l then (l - 1 + d).choose (l - 1) else 0) := by
  by_cases hl : 0 < l
  · have : V d l u = V d 0 u \ V d 0 (l - 1) := by
      ext x
      simp only [mem_sdiff, mem_V]
      omega
    have hs : V d 0 (l - 1) ⊆ V d 0 u := by
      intro x
      simp only [mem_V]
      omega
    rw [this, card_sdiff_of_subset hs, card_V0, card_V0, if_pos hl]
  · have : l = 0 := by omega
    subst this
    simp [card_V0]

theorem card_V_empty (d l u : ℕ) (h : u < l) : (V d l u).card = 0 := by
  rw [card_eq_zero]
  ext x
  simp only [mem_V, notMem_empty, iff_false]
  omega

/-- a dimension leaves room: the size is positive -/
theorem size_pos (d l u : ℕ) (hd : 1 ≤ d) (h : l ≤ u) : 1 ≤ (V d l u).card := by
  obtain ⟨e, rfl⟩ := Nat.exists_eq_add_of_le' hd
  rw [Nat.succ_le_iff, card_pos]
  refine ⟨Fin.cons l (fun _ => 0), mem_V.2 ?_⟩
  simp [deg, Fin.sum_univ_succ]
  omega

/-! ### the order -/

def lexlt {d : ℕ} (y x : Fin d → ℕ) : Prop := ∃ i, (∀ j, j < i → y j = x j) ∧ y i < x i

def lt {d : ℕ} (y x : Fin d → ℕ) : Prop := deg y < deg x ∨ (deg y = deg x ∧ lexlt y x)

theorem lexlt_succ {d : ℕ} (y x : Fin (d + 1) → ℕ) :
    lexlt y x ↔ y 0 < x 0 ∨ (y 0 = x 0 ∧ lexlt (Fin.tail y) (Fin.tail x)) := by
  constructor
  · rintro ⟨i, h1, h2⟩
    refine Fin.cases (motive := fun i => (∀ j, j < i → y j = x j) → y i < x i → _) ?_ ?_ i h1 h2
    · intro _ h; exact Or.inl h
    · intro i h1 h2
      exact Or.inr ⟨h1 0 (Fin.succ_pos i), i, fun j hj => h1 j.succ (Fin.succ_lt_succ_iff.2 hj), h2⟩
  · rintro (h | ⟨h0, i, h1, h2⟩)
    · exact ⟨0, fun j hj => absurd hj (Fin.not_lt_zero j), h⟩
    · refine ⟨i.succ, fun j hj => ?_, h2⟩
      refine Fin.cases (motive := fun j => j < i.succ → y j = x j) (fun _ => h0) ?_ j hj
      intro j hj
      exact h1 j (Fin.succ_lt_succ_iff.1 hj)

theorem lexlt_irrefl {d : ℕ} (x : Fin d → ℕ) : ¬ lexlt x x := by
  rintro ⟨i, _, h⟩; omega

theorem lexlt_trans {d : ℕ} {x y z : Fin d → ℕ} (h1 : lexlt x y) (h2 : lexlt y z) : lexlt x z := by
  obtain ⟨i, hi, hi'⟩ := h1
  obtain ⟨j, hj, hj'⟩ := h2
  rcases lt_trichotomy i j with h | h | h
  · exact ⟨i, fun k hk => (hi k hk).trans (hj k (hk.trans h)), by rw [← hj i h]; exact hi'⟩
  · subst h
    exact ⟨i, fun k hk => (hi k hk).trans (hj k hk), hi'.trans hj'⟩
  · exact ⟨j, fun k hk => (hi k (hk.trans h)).trans (hj k hk), by rw [hi j h]; exact hj'⟩

theorem lexlt_total {d : ℕ} (x y : Fin d → ℕ) : lexlt x y ∨ x = y ∨ lexlt y x := by
  induction d with
  | zero => exact Or.inr (Or.inl (Subsingleton.elim _ _))
  | succ d ih =>
    rcases lt_trichotomy (x 0) (y 0) with h | h | h
    · exact Or.inl ((lexlt_succ _ _).2 (Or.inl h))
    · rcases ih (Fin.tail x) (Fin.tail y) with g | g | g
      · exact Or.inl ((lexlt_succ _ _).2 (Or.inr ⟨h, g⟩))
      · refine Or.inr (Or.inl ?_)
        rw [← Fin.cons_self_tail x, ← Fin.cons_self_tail y, h, g]
      · exact Or.inr (Or.inr ((lexlt_succ _ _).2 (Or.inr ⟨h.symm, g⟩)))
    · exact Or.inr (Or.inr ((lexlt_succ _ _).2 (Or.inl h)))

theorem lt_irrefl {d : ℕ} (x : Fin d → ℕ) : ¬ lt x x := by
  rintro (h | ⟨_, h⟩)
  · omega
  · exact lexlt_irrefl x h

theorem lt_trans {d : ℕ} {x y z : Fin d → ℕ} (h1 : lt x y) (h2 : lt y z) : lt x z := by
  rcases h1 with h1 | ⟨e1, h1⟩ <;> rcases h2 with h2 | ⟨e2, h2⟩
  · exact Or.inl (h1.trans h2)
  · exact Or.inl (e2 ▸ h1)
  · exact Or.inl (e1 ▸ h2)
  · exact Or.inr ⟨e1.trans e2, lexlt_trans h1 h2⟩

theorem lt_total {d : ℕ} (x y : Fin d → ℕ) : lt x y ∨ x = y ∨ lt y x := by
  rcases lt_trichotomy (deg x) (deg y) with h | h | h
  · exact Or.inl (Or.inl h)
  · rcases lexlt_total x y with g | g | g
    · exact Or.inl (Or.inr ⟨h, g⟩)
    · exact Or.inr (Or.inl g)
    · exact Or.inr (Or.inr (Or.inr ⟨h.symm, g⟩))
  · exact Or.inr (Or.inr (Or.inl h))

/-! ### rank -/

open Classical in
/-- predecessors of x of degree at least l -/
noncomputable def pred {d : ℕ} (l : ℕ) (x : Fin d → ℕ) : Finset (Fin d → ℕ) :=
  (V d l (deg x)).filter (fun y => lt y x)

theorem mem_pred {d l : ℕ} {x y : Fin d → ℕ} : y ∈ pred l x ↔ l ≤ deg y ∧ lt y x := by
  unfold pred
  simp only [mem_filter, mem_V]
  constructor
  · exact fun h => ⟨h.1.1, h.2⟩
  · rintro ⟨h1, h2⟩
    refine ⟨⟨h1, ?_⟩, h2⟩
    rcases h2 with h | h <;> omega

open Classical in
noncomputable def lexpred {d : ℕ} (x : Fin d → ℕ) : Finset (Fin d → ℕ) :=
  (V d (deg x) (deg x)).filter (fun y => lexlt y x)

theorem mem_lexpred {d : ℕ} {x y : Fin d → ℕ} : y ∈ lexpred x ↔ deg y = deg x ∧ lexlt y x := by
  unfold lexpred
  simp only [mem_filter, mem_V]
  constructor
  · exact fun h => ⟨by omega, h.2⟩
  · exact fun h => ⟨by omega, h.2⟩

/-- SIZE(d, u, l) with u = R, l = R - x + 1, only when x ≥ 1 -/
noncomputable def step (d R x : ℕ) : ℕ := if 1 ≤ x then (V d (R - x + 1) R).card else 0

theorem lexpred_card {d : ℕ} (x : Fin d → ℕ) :
    (lexpred x).card = ∑ i : Fin d, step (d - (i + 1)) (∑ a : Fin d, if i ≤ a then x a else 0) (x i) := by
  induction d with
  | zero =>
    rw [Fin.sum_univ_zero, card_eq_zero]
    ext y
    simp only [mem_lexpred, notMem_empty, iff_false, not_and]
    rintro _ ⟨i, _⟩
    exact i.elim0
  | succ d ih =>
    rw [Fin.sum_univ_succ]
    have hsplit : lexpred x = (if 1 ≤ x 0 then (V d (deg x - x 0 + 1) (deg x)).image
          (fun t => Fin.cons (deg x - deg t) t) else ∅)
        ∪ (lexpred (Fin.tail x)).image (Fin.cons (x 0)) := by
      ext y
      simp only [mem_union, mem_lexpred, lexlt_succ, mem_image]
      have hx : deg x = x 0 + deg (Fin.tail x) := by simp [deg, Fin.sum_univ_succ, Fin.tail]
      have hy : deg y = y 0 + deg (Fin.tail y) := by simp [deg, Fin.sum_univ_succ, Fin.tail]
      constructor
      · rintro ⟨h, g | ⟨g0, g⟩⟩
        · left
          rw [if_pos (by omega), mem_image]
          refine ⟨Fin.tail y, mem_V.2 (by omega), ?_⟩
          rw [show deg x - deg (Fin.tail y) = y 0 by omega, Fin.cons_self_tail]
        · right
          exact ⟨Fin.tail y, ⟨by omega, g⟩, by rw [← g0, Fin.cons_self_tail]⟩
      · rintro (h | ⟨t, ⟨h1, h2⟩, rfl⟩)
        · split_ifs at h with hx0
          · rw [mem_image] at h
            obtain ⟨t, ht, rfl⟩ := h
            rw [mem_V] at ht
            simp only [Fin.cons_zero, Fin.tail_cons] at *
            exact ⟨by omega, Or.inl (by omega)⟩
          · simp at h
        · simp only [Fin.cons_zero, Fin.tail_cons] at *
          exact ⟨by omega, Or.inr ⟨trivial, h2⟩⟩
    rw [hsplit, card_union_of_disjoint]
    · congr 1
      · have e : (∑ a : Fin (d + 1), if (0 : Fin (d + 1)) ≤ a then x a else 0) = deg x := by simp [deg]
        rw [e]
        unfold step
        split_ifs with h
        · rw [card_image_of_injective]
          · simp
          · intro s t hst
            have := congrArg Fin.tail hst
            simpa using this
        · simp
      · rw [card_image_of_injective _ (Fin.cons_right_injective (α := fun _ => ℕ) (x 0)), ih]
        refine sum_congr rfl fun i _ => ?_
        congr 1
        · simp
        · rw [Fin.sum_univ_succ (n := d)]
          simp [Fin.tail, Fin.succ_le_succ_iff]
    · rw [disjoint_left]
      intro y h1 h2
      split_ifs at h1 with hx0
      · rw [mem_image] at h1 h2
        obtain ⟨t, ht, rfl⟩ := h1
        obtain ⟨s, hs, he⟩ := h2
        rw [mem_V] at ht
        have := congrFun he 0
        simp only [Fin.cons_zero] at this
        have hx : deg x = x 0 + deg (Fin.tail x) := by simp [deg, Fin.sum_univ_succ, Fin.tail]
        omega
      · simp at h1

/-- the contract of graded_lexico_indexof_multi_index: the number of predecessors (of degree at least l) -/
theorem rank_formula {d : ℕ} (l : ℕ) (x : Fin d → ℕ) (h : l ≤ deg x) :
    (pred l x).card + (if 0 < l then (V d 0 (l - 1)).card else 0) =
      (if deg x = 0 then 0 else (V d 0 (deg x - 1)).card)
        + ∑ i : Fin d, step (d - (i + 1)) (∑ a : Fin d, if i ≤ a then x a else 0) (x i) := by
  rw [← lexpred_card]
  have h1 : pred l x = (if deg x = 0 then ∅ else V d l (deg x - 1)) ∪ lexpred x := by
    ext y
    simp only [mem_union, mem_pred, mem_lexpred, lt]
    split_ifs with h0
    · simp only [notMem_empty, false_or]
      constructor
      · rintro ⟨_, h | h⟩
        · omega
        · exact h
      · intro h'
        exact ⟨by omega, Or.inr h'⟩
    · rw [mem_V]
      constructor
      · rintro ⟨h1, h | h⟩
        · exact Or.inl (by omega)
        · exact Or.inr h
      · rintro (h' | h')
        · exact ⟨h'.1, Or.inl (by omega)⟩
        · exact ⟨by omega, Or.inr h'⟩
  rw [h1, card_union_of_disjoint]
  · split_ifs with h0 hl hl
    · omega
    · simp
    · have : V d l (deg x - 1) = V d 0 (deg x - 1) \ V d 0 (l - 1) := by
        ext y; simp only [mem_sdiff, mem_V]; omega
      have hs : V d 0 (l - 1) ⊆ V d 0 (deg x - 1) := by
        intro y; simp only [mem_V]; omega
      have hc := card_le_card hs
      rw [this, card_sdiff_of_subset hs]
      omega
    · have : l = 0 := by omega
      subst this
      omega
  · rw [disjoint_left]
    intro y h2 h3
    rw [mem_lexpred] at h3
    split_ifs at h2 with h0
    · simp at h2
    · rw [mem_V] at h2; omega

/-- the rank of a multi-index of degree at most u is below the size -/
theorem rank_lt {d : ℕ} (l u : ℕ) (x : Fin d → ℕ) (h : l ≤ deg x) (hu : deg x ≤ u) :
    (pred l x).card < (V d l u).card := by
  apply card_lt_card
  rw [ssubset_iff_of_subset]
  · exact ⟨x, mem_V.2 ⟨h, hu⟩, fun hx => lt_irrefl x (mem_pred.1 hx).2⟩
  · intro y hy
    rw [mem_pred] at hy
    rw [mem_V]
    rcases hy.2 with g | g <;> omega

/-! ### enumeration -/

/-- z covers x: nothing lies strictly between -/
def covers {d : ℕ} (x z : Fin d → ℕ) : Prop := lt x z ∧ ∀ y, lt y z → y = x ∨ lt y x

theorem pred_covers {d l : ℕ} {x z : Fin d → ℕ} (h : covers x z) (hl : l ≤ deg x) :
    (pred l z).card = (pred l x).card + 1 := by
  have : pred l z = insert x (pred l x) := by
    ext y
    simp only [mem_insert, mem_pred]
    constructor
    · rintro ⟨h1, h2⟩
      rcases h.2 y h2 with g | g
      · exact Or.inl g
      · exact Or.inr ⟨h1, g⟩
    · rintro (rfl | ⟨h1, h2⟩)
      · exact ⟨hl, h.1⟩
      · exact ⟨h1, lt_trans h2 h.1⟩
  rw [this, card_insert_of_notMem]
  exact fun hx => lt_irrefl x (mem_pred.1 hx).2

/-- NEXT when only the first coordinate is non-zero: the first multi-index of the next degree -/
theorem next_covers_first {n : ℕ} (x z : Fin (n + 1) → ℕ) (hx : ∀ a, a ≠ 0 → x a = 0)
    (hz : ∀ a, z a = if a = Fin.last n then deg x + 1 else 0) : covers x z := by
  have hdz : deg z = deg x + 1 := by
    simp [deg, hz]
  refine ⟨Or.inl (by omega), fun y hy => ?_⟩
  have hyx : deg y ≤ deg x := by
    rcases hy with h | ⟨h, i, h1, h2⟩
    · omega
    · exfalso
      rw [hz i] at h2
      split_ifs at h2 with hi
      · subst hi
        have : deg y = y (Fin.last n) := by
          refine sum_eq_single _ (fun b _ hb => ?_) (by simp)
          rw [h1 b (lt_of_le_of_ne (Fin.le_last b) hb), hz b, if_neg hb]
        omega
      · omega
  rcases Nat.lt_or_ge (deg y) (deg x) with h | h
  · exact Or.inr (Or.inl h)
  · have hd : deg y = deg x := by omega
    have hx0 : deg x = x 0 := sum_eq_single _ (fun b _ hb => hx b hb) (by simp)
    have hy0 : deg y = y 0 + deg (Fin.tail y) := by simp [deg, Fin.sum_univ_succ, Fin.tail]
    rcases Nat.lt_or_ge (y 0) (x 0) with g | g
    · exact Or.inr (Or.inr ⟨hd, 0, fun j hj => absurd hj (Fin.not_lt_zero j), g⟩)
    · left
      have h0 : deg (Fin.tail y) = 0 := by omega
      have ht : ∀ j, Fin.tail y j = 0 := by
        intro j
        exact (sum_eq_zero_iff.1 h0) j (mem_univ j)
      funext a
      refine Fin.cases ?_ (fun j => ?_) a
      · omega
      · rw [hx _ (Fin.succ_ne_zero j)]
        exact ht j

/-- NEXT otherwise: with k ≥ 1 the last non-zero coordinate, one unit moves to k - 1 and the rest to the last coordinate -/
theorem next_covers {n : ℕ} (x z : Fin (n + 1) → ℕ) (k p : Fin (n + 1)) (hp : p.val + 1 = k.val) (hk : 1 ≤ x k)
    (hlast : ∀ a, k < a → x a = 0)
    (hz : ∀ a, z a + (if a = k then x k else 0) = x a + (if a = p then 1 else 0) + (if a = Fin.last n then x k - 1 else 0)) :
    covers x z := by
  have hpk : p < k := by rw [Fin.lt_def]; omega
  have hkl : k ≤ Fin.last n := Fin.le_last k
  have hpl : p ≠ Fin.last n := ne_of_lt (lt_of_lt_of_le hpk hkl)
  have hzlow : ∀ a, a < p → z a = x a := by
    intro a ha
    have := hz a
    rw [if_neg (ne_of_lt (ha.trans hpk)), if_neg (ne_of_lt ha), if_neg (ne_of_lt (lt_of_lt_of_le (ha.trans hpk) hkl))] at this
    omega
  have hzp : z p = x p + 1 := by
    have := hz p
    rw [if_neg (ne_of_lt hpk), if_pos rfl, if_neg hpl] at this
    omega
  have hzmid : ∀ a, k ≤ a → a ≠ Fin.last n → z a = 0 := by
    intro a ha hl
    have := hz a
    rw [if_neg (ne_of_gt (lt_of_lt_of_le hpk ha)), if_neg hl] at this
    split_ifs at this with h
    · subst h; omega
    · have := hlast a (lt_of_le_of_ne ha (Ne.symm h)); omega
  have hdz : deg z = deg x := by
    have h1 := sum_congr (rfl : (univ : Finset (Fin (n + 1))) = univ) (fun a _ => hz a)
    rw [sum_add_distrib, sum_add_distrib, sum_add_distrib] at h1
    simp only [sum_ite_eq', mem_univ, if_true] at h1
    show ∑ i, z i = ∑ i, x i
    omega
  refine ⟨Or.inr ⟨hdz.symm, p, fun j hj => (hzlow j hj).symm, by omega⟩, fun y hy => ?_⟩
  rcases hy with h | ⟨hd, j, hj, hj'⟩
  · exact Or.inr (Or.inl (by omega))
  · rcases lexlt_total y x with g | g | ⟨i, hi, hi'⟩
    · exact Or.inr (Or.inr ⟨by omega, g⟩)
    · exact Or.inl g
    · exfalso
      rcases lt_trichotomy j p with h | h | h
      · rcases lt_trichotomy i j with g | g | g
        · have := hj i g; have := hzlow i (g.trans h); omega
        · subst g; have := hzlow i h; omega
        · have := hi j g; have := hzlow j h; omega
      · subst h
        have hij : j < i := by
          rcases lt_trichotomy i j with g | g | g
          · have := hj i g; have := hzlow i g; omega
          · subst g; omega
          · exact g
        have hki : k ≤ i := by rw [Fin.le_def]; rw [Fin.lt_def] at hij; omega
        have : deg x < deg y := by
          refine sum_lt_sum (fun a _ => ?_) ⟨i, mem_univ i, hi'⟩
          rcases lt_trichotomy a i with g | g | g
          · exact le_of_eq (hi a g)
          · subst g; omega
          · rw [hlast a (lt_of_le_of_lt hki g)]; omega
        omega
      · have hkj : k ≤ j := by rw [Fin.le_def]; rw [Fin.lt_def] at h; omega
        by_cases hl : j = Fin.last n
        · have : deg y < deg z := by
            refine sum_lt_sum (fun a _ => ?_) ⟨j, mem_univ j, hj'⟩
            rcases lt_trichotomy a j with g | g | g
            · exact le_of_eq (hj a g)
            · subst g; omega
            · rw [hl] at g; exact absurd g (not_lt_of_ge (Fin.le_last a))
          omega
        · have := hzmid j hkj hl; omega

/-- l e_{d-1} has no predecessor of degree at least l -/
theorem first_pred {n l : ℕ} (x : Fin (n + 1) → ℕ) (hx : ∀ a, x a = if a = Fin.last n then l else 0) :
    deg x = l ∧ pred l x = ∅ := by
  have hd : deg x = l := by simp [deg, hx]
  refine ⟨hd, ?_⟩
  ext y
  simp only [mem_pred, notMem_empty, iff_false, not_and]
  rintro h1 (h | ⟨h, i, hi, hi'⟩)
  · omega
  · rw [hx i] at hi'
    split_ifs at hi' with hl
    · subst hl
      have : deg y = y (Fin.last n) := by
        refine sum_eq_single _ (fun b _ hb => ?_) (by simp)
        rw [hi b (lt_of_le_of_ne (Fin.le_last b) hb), hx b, if_neg hb]
      omega
    · omega

/-- the enumeration: starting at l e_{d-1} and taking immediate successors, entry r has rank r, so the first (V d l u).card
entries are exactly V d l u, in increasing order, each once -/
theorem enumeration {n l u : ℕ} (f : ℕ → Fin (n + 1) → ℕ) (h0 : ∀ a, f 0 a = if a = Fin.last n then l else 0)
    (hs : ∀ r, covers (f r) (f (r + 1))) :
    (∀ r, l ≤ deg (f r) ∧ (pred l (f r)).card = r) ∧
    (∀ x, x ∈ V (n + 1) l u ↔ ∃ r, r < (V (n + 1) l u).card ∧ f r = x) := by
  have hr : ∀ r, l ≤ deg (f r) ∧ (pred l (f r)).card = r := by
    intro r
    induction r with
    | zero =>
      have := first_pred (f 0) h0
      exact ⟨by omega, by rw [this.2, card_empty]⟩
    | succ r ih =>
      refine ⟨?_, by rw [pred_covers (hs r) ih.1, ih.2]⟩
      rcases (hs r).1 with g | g <;> omega
  refine ⟨hr, ?_⟩
  have inj : ∀ x y : Fin (n + 1) → ℕ, l ≤ deg x → l ≤ deg y → (pred l x).card = (pred l y).card → x = y := by
    have aux : ∀ x y : Fin (n + 1) → ℕ, l ≤ deg x → lt x y → (pred l x).card < (pred l y).card := by
      intro x y h h'
      apply card_lt_card
      rw [ssubset_iff_of_subset]
      · exact ⟨x, mem_pred.2 ⟨h, h'⟩, fun hx => lt_irrefl x (mem_pred.1 hx).2⟩
      · intro w hw
        rw [mem_pred] at *
        exact ⟨hw.1, lt_trans hw.2 h'⟩
    intro x y hx hy he
    rcases lt_total x y with g | g | g
    · have := aux x y hx g; omega
    · exact g
    · have := aux y x hy g; omega
  intro x
  constructor
  · intro hx
    have hx' := mem_V.1 hx
    refine ⟨(pred l x).card, rank_lt l u x hx'.1 hx'.2, ?_⟩
    exact inj _ _ (hr _).1 hx'.1 (hr _).2
  · rintro ⟨r, hlt, rfl⟩
    rw [mem_V]
    refine ⟨(hr r).1, ?_⟩
    by_contra hgt
    have hsub : V (n + 1) l u ⊆ pred l (f r) := by
      intro y hy
      rw [mem_V] at hy
      exact mem_pred.2 ⟨hy.1, Or.inl (by omega)⟩
    have := card_le_card hsub
    rw [(hr r).2] at this
    omega

end MultiIndex
