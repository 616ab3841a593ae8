/-
Mathematical facts that the contracts use as rules, proved here once and for all (they do not depend on the code).
Checked with `lean lemmas/Farkas.lean` (Lean 4, Mathlib).
-/
import Mathlib

namespace Pympc

/-- Farkas: a system of linear inequalities has a solution, or a nonnegative combination of its rows reads 0 <= negative.
(Fourier-Motzkin elimination of the first variable.) -/
theorem farkas_fin : ∀ (n : ℕ) (ι : Type) [Fintype ι] (a : ι → Fin n → ℝ) (b : ι → ℝ),
    (∃ x : Fin n → ℝ, ∀ i, ∑ j, a i j * x j ≤ b i) ∨
    (∃ y : ι → ℝ, (∀ i, 0 ≤ y i) ∧ (∀ j, ∑ i, y i * a i j = 0) ∧ ∑ i, y i * b i < 0) := by
  classical
  intro n
  induction n with
  | zero =>
    intro ι _ a b
    by_cases h : ∀ i, 0 ≤ b i
    · left; exact ⟨fun _ => 0, fun i => by simpa using h i⟩
    · right
      push Not at h
      obtain ⟨i0, hi0⟩ := h
      refine ⟨fun i => if i = i0 then 1 else 0, ?_, ?_, ?_⟩
      · intro i; dsimp only; split_ifs <;> norm_num
      · intro j; exact j.elim0
      · simpa using hi0
  | succ n ih =>
    intro ι _ a b
    let κ := ({i : ι // 0 < a i 0} × {i : ι // a i 0 < 0}) ⊕ {i : ι // a i 0 = 0}
    let M : κ → ι → ℝ := fun k i => match k with
      | Sum.inl (p, q) => (if i = p.1 then - a q.1 0 else 0) + (if i = q.1 then a p.1 0 else 0)
      | Sum.inr z => if i = z.1 then 1 else 0
    have Mnn : ∀ k i, 0 ≤ M k i := by
      rintro (⟨p, q⟩ | z) i
      · have h1 := p.2
        have h2 := q.2
        simp only [M]
        apply add_nonneg <;> split_ifs <;> linarith
      · simp only [M]; split_ifs <;> norm_num
    -- the combination of a family with the weights of a new row
    have comb : ∀ (p : {i : ι // 0 < a i 0}) (q : {i : ι // a i 0 < 0}) (g : ι → ℝ),
        ∑ i, M (Sum.inl (p, q)) i * g i = - a q.1 0 * g p.1 + a p.1 0 * g q.1 := by
      intro p q g
      simp only [M, add_mul, Finset.sum_add_distrib, ite_mul, zero_mul, Finset.sum_ite_eq', Finset.mem_univ, if_true]
    have combz : ∀ (z : {i : ι // a i 0 = 0}) (g : ι → ℝ), ∑ i, M (Sum.inr z) i * g i = g z.1 := by
      intro z g
      simp only [M, ite_mul, one_mul, zero_mul, Finset.sum_ite_eq', Finset.mem_univ, if_true]
    have M0 : ∀ k, ∑ i, M k i * a i 0 = 0 := by
      rintro (⟨p, q⟩ | z)
      · rw [comb p q (fun i => a i 0)]; ring
      · rw [combz z (fun i => a i 0)]; exact z.2
    rcases ih κ (fun k j => ∑ i, M k i * a i j.succ) (fun k => ∑ i, M k i * b i) with ⟨x, hx⟩ | ⟨y, hy0, hya, hyb⟩
    · left
      let r : ι → ℝ := fun i => b i - ∑ j, a i (Fin.succ j) * x j
      have hM : ∀ k, 0 ≤ ∑ i, M k i * r i := by
        intro k
        have e : ∑ i, M k i * r i = ∑ i, M k i * b i - ∑ j, (∑ i, M k i * a i j.succ) * x j := by
          simp only [r, mul_sub, Finset.sum_sub_distrib]
          congr 1
          simp only [Finset.mul_sum, Finset.sum_mul]
          rw [Finset.sum_comm]
          exact Finset.sum_congr rfl fun j _ => Finset.sum_congr rfl fun i _ => by ring
        rw [e]
        have := hx k
        linarith
      have hPN : ∀ p q, 0 < a p 0 → a q 0 < 0 → r q / a q 0 ≤ r p / a p 0 := by
        intro p q hp hq
        have h := hM (Sum.inl (⟨p, hp⟩, ⟨q, hq⟩))
        rw [comb] at h
        rw [div_le_iff_of_neg hq, div_mul_eq_mul_div, div_le_iff₀ hp]
        simp only at h
        nlinarith
      have hZ : ∀ z, a z 0 = 0 → 0 ≤ r z := by
        intro z hz
        have h := hM (Sum.inr ⟨z, hz⟩)
        rwa [combz] at h
      obtain ⟨t, htP, htN⟩ : ∃ t, (∀ p, 0 < a p 0 → t ≤ r p / a p 0) ∧ (∀ q, a q 0 < 0 → r q / a q 0 ≤ t) := by
        by_cases hP : ∃ p, 0 < a p 0
        · obtain ⟨p0, hp0⟩ := hP
          obtain ⟨p, hp, hmin⟩ := Finset.exists_min_image (Finset.univ.filter fun p => 0 < a p 0) (fun p => r p / a p 0)
            ⟨p0, by simpa using hp0⟩
          have hp' : 0 < a p 0 := by simpa using hp
          exact ⟨r p / a p 0, fun q hq => hmin q (by simpa using hq), fun q hq => hPN p q hp' hq⟩
        · push Not at hP
          by_cases hN : ∃ q, a q 0 < 0
          · obtain ⟨q0, hq0⟩ := hN
            obtain ⟨q, hq, hmax⟩ := Finset.exists_max_image (Finset.univ.filter fun q => a q 0 < 0) (fun q => r q / a q 0)
              ⟨q0, by simpa using hq0⟩
            exact ⟨r q / a q 0, fun p hp => absurd hp (not_lt.mpr (hP p)), fun q' hq' => hmax q' (by simpa using hq')⟩
          · push Not at hN
            exact ⟨0, fun p hp => absurd hp (not_lt.mpr (hP p)), fun q hq => absurd hq (not_lt.mpr (hN q))⟩
      refine ⟨Fin.cons t x, fun i => ?_⟩
      rw [Fin.sum_univ_succ]
      simp only [Fin.cons_zero, Fin.cons_succ]
      have key : a i 0 * t ≤ r i := by
        rcases lt_trichotomy (a i 0) 0 with h | h | h
        · have := htN i h
          rw [div_le_iff_of_neg h] at this
          linarith
        · rw [h, zero_mul]; exact hZ i h
        · have := htP i h
          rw [le_div_iff₀ h] at this
          linarith
      simp only [r] at key
      linarith
    · right
      have sw : ∀ g : ι → ℝ, ∑ i, (∑ k, y k * M k i) * g i = ∑ k, y k * ∑ i, M k i * g i := by
        intro g
        simp only [Finset.sum_mul, Finset.mul_sum]
        rw [Finset.sum_comm]
        exact Finset.sum_congr rfl fun k _ => Finset.sum_congr rfl fun i _ => by ring
      refine ⟨fun i => ∑ k, y k * M k i, fun i => Finset.sum_nonneg fun k _ => mul_nonneg (hy0 k) (Mnn k i), fun j => ?_, ?_⟩
      · rw [sw (fun i => a i j)]
        refine Fin.cases ?_ (fun j => ?_) j
        · simp [M0]
        · exact hya j
      · rw [sw b]; exact hyb

theorem farkas {ι J : Type} [Fintype ι] [Fintype J] (a : ι → J → ℝ) (b : ι → ℝ) :
    (∃ x : J → ℝ, ∀ i, ∑ j, a i j * x j ≤ b i) ∨
    (∃ y : ι → ℝ, (∀ i, 0 ≤ y i) ∧ (∀ j, ∑ i, y i * a i j = 0) ∧ ∑ i, y i * b i < 0) := by
  let e := Fintype.equivFin J
  rcases farkas_fin (Fintype.card J) ι (fun i j => a i (e.symm j)) b with ⟨x, hx⟩ | ⟨y, h0, h1, h2⟩
  · left
    refine ⟨fun j => x (e j), fun i => ?_⟩
    have := hx i
    rw [← Equiv.sum_comp e] at this
    simpa using this
  · right
    refine ⟨y, h0, fun j => ?_, h2⟩
    simpa using h1 (e j)

/-- Stiemke: positive weights (at least one) with zero combination, or a direction along which no row increases and some row
decreases. -/
theorem stiemke {ι J : Type} [Fintype ι] [Fintype J] (a : ι → J → ℝ) :
    (∃ y : ι → ℝ, (∀ i, 1 ≤ y i) ∧ ∀ j, ∑ i, y i * a i j = 0) ∨
    (∃ t : J → ℝ, (∀ i, ∑ j, a i j * t j ≤ 0) ∧ ∃ i, ∑ j, a i j * t j < 0) := by
  classical
  -- unknown y: -y <= -1, (a^T y) <= 0, -(a^T y) <= 0
  rcases farkas (ι := ι ⊕ (J ⊕ J)) (J := ι)
      (fun k i => match k with
        | Sum.inl i' => if i = i' then -1 else 0
        | Sum.inr (Sum.inl j) => a i j
        | Sum.inr (Sum.inr j) => - a i j)
      (fun k => match k with
        | Sum.inl _ => -1
        | Sum.inr _ => 0) with ⟨y, hy⟩ | ⟨z, h0, h1, h2⟩
  · left
    refine ⟨y, fun i => ?_, fun j => ?_⟩
    · have := hy (Sum.inl i)
      simp at this
      linarith
    · have u := hy (Sum.inr (Sum.inl j))
      have l := hy (Sum.inr (Sum.inr j))
      simp only [neg_mul, Finset.sum_neg_distrib] at u l
      have e : ∑ i, y i * a i j = ∑ i, a i j * y i := Finset.sum_congr rfl fun i _ => mul_comm _ _
      linarith
  · right
    simp only [Fintype.sum_sum_type, mul_neg, mul_one, mul_zero, Finset.sum_const_zero, add_zero, Finset.sum_neg_distrib, mul_ite] at h1 h2
    have hz : ∀ i, ∑ j, a i j * (z (Sum.inr (Sum.inr j)) - z (Sum.inr (Sum.inl j))) = - z (Sum.inl i) := by
      intro i
      have := h1 i
      simp only [Finset.sum_ite_eq, Finset.mem_univ, if_true] at this
      simp only [mul_sub, Finset.sum_sub_distrib]
      have e1 : ∑ j, a i j * z (Sum.inr (Sum.inr j)) = ∑ j, z (Sum.inr (Sum.inr j)) * a i j := Finset.sum_congr rfl fun j _ => mul_comm _ _
      have e2 : ∑ j, a i j * z (Sum.inr (Sum.inl j)) = ∑ j, z (Sum.inr (Sum.inl j)) * a i j := Finset.sum_congr rfl fun j _ => mul_comm _ _
      rw [e1, e2]
      linarith
    refine ⟨fun j => z (Sum.inr (Sum.inr j)) - z (Sum.inr (Sum.inl j)), fun i => ?_, ?_⟩
    · rw [hz i]; linarith [h0 (Sum.inl i)]
    · by_contra hcon
      push Not at hcon
      have : ∀ i, z (Sum.inl i) = 0 := by
        intro i
        have h := hcon i
        rw [hz i] at h
        linarith [h0 (Sum.inl i)]
      simp [this] at h2


/-- Stiemke for inequalities `A t <= 0` and equalities `C t = 0`, in the form used for `Polyhedron.bounded`. -/
theorem stiemke_eq {ι κ J : Type} [Fintype ι] [Fintype κ] [Fintype J] (a : ι → J → ℝ) (c : κ → J → ℝ) :
    (∃ (y : ι → ℝ) (y1 y2 : κ → ℝ), (∀ i, 1 ≤ y i) ∧ (∀ i, 1 ≤ y1 i) ∧ (∀ i, 1 ≤ y2 i) ∧
      ∀ j, ∑ i, y i * a i j + ∑ i, y1 i * c i j - ∑ i, y2 i * c i j = 0) ∨
    (∃ t : J → ℝ, (∀ i, ∑ j, a i j * t j ≤ 0) ∧ (∀ i, ∑ j, c i j * t j = 0) ∧ ∃ i, ∑ j, a i j * t j ≠ 0) := by
  rcases stiemke (ι := ι ⊕ (κ ⊕ κ)) (fun k j => match k with
      | Sum.inl i => a i j
      | Sum.inr (Sum.inl i) => c i j
      | Sum.inr (Sum.inr i) => - c i j) with ⟨y, h1, h2⟩ | ⟨t, h1, k, h2⟩
  · left
    refine ⟨fun i => y (Sum.inl i), fun i => y (Sum.inr (Sum.inl i)), fun i => y (Sum.inr (Sum.inr i)),
      fun i => h1 _, fun i => h1 _, fun i => h1 _, fun j => ?_⟩
    have := h2 j
    simp only [Fintype.sum_sum_type, mul_neg, Finset.sum_neg_distrib] at this
    linarith
  · right
    have hc : ∀ i, ∑ j, c i j * t j = 0 := by
      intro i
      have u := h1 (Sum.inr (Sum.inl i))
      have l := h1 (Sum.inr (Sum.inr i))
      simp only [neg_mul, Finset.sum_neg_distrib] at u l
      linarith
    refine ⟨t, fun i => h1 (Sum.inl i), hc, ?_⟩
    rcases k with i | i | i
    · exact ⟨i, ne_of_lt h2⟩
    · exact absurd (hc i) (ne_of_lt h2)
    · simp only [neg_mul, Finset.sum_neg_distrib] at h2
      have := hc i
      linarith

theorem sum_swap {ι J : Type} [Fintype ι] [Fintype J] (a : ι → J → ℝ) (u : ι → ℝ) (x : J → ℝ) :
    ∑ j, (∑ i, u i * a i j) * x j = ∑ i, u i * ∑ j, a i j * x j := by
  simp only [Finset.sum_mul, Finset.mul_sum]
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl fun k _ => Finset.sum_congr rfl fun i _ => by ring

/-- Linear programs `min f.x, a x <= b`: optimal primal and dual points, or no feasible point, or a feasible ray of negative
cost. -/
theorem lp_alternative_ineq {ι J : Type} [Fintype ι] [Fintype J] (a : ι → J → ℝ) (b : ι → ℝ) (f : J → ℝ) :
    (∃ (x : J → ℝ) (y : ι → ℝ), (∀ i, ∑ j, a i j * x j ≤ b i) ∧ (∀ i, 0 ≤ y i) ∧
      (∀ j, f j + ∑ i, y i * a i j = 0) ∧ ∑ j, f j * x j + ∑ i, y i * b i ≤ 0) ∨
    (¬ ∃ x : J → ℝ, ∀ i, ∑ j, a i j * x j ≤ b i) ∨
    (∃ r : J → ℝ, (∀ i, ∑ j, a i j * r j ≤ 0) ∧ ∑ j, f j * r j < 0) := by
  classical
  by_cases hf : ∃ x : J → ℝ, ∀ i, ∑ j, a i j * x j ≤ b i
  swap
  · exact Or.inr (Or.inl hf)
  obtain ⟨x0, hx0⟩ := hf
  rcases farkas (ι := (ι ⊕ ι) ⊕ ((J ⊕ J) ⊕ Unit)) (J := J ⊕ ι)
      (fun k v => match k, v with
        | Sum.inl (Sum.inl i), Sum.inl j => a i j
        | Sum.inl (Sum.inl _), Sum.inr _ => 0
        | Sum.inl (Sum.inr _), Sum.inl _ => 0
        | Sum.inl (Sum.inr i), Sum.inr i' => if i' = i then -1 else 0
        | Sum.inr (Sum.inl (Sum.inl _)), Sum.inl _ => 0
        | Sum.inr (Sum.inl (Sum.inl j)), Sum.inr i => a i j
        | Sum.inr (Sum.inl (Sum.inr _)), Sum.inl _ => 0
        | Sum.inr (Sum.inl (Sum.inr j)), Sum.inr i => - a i j
        | Sum.inr (Sum.inr _), Sum.inl j => f j
        | Sum.inr (Sum.inr _), Sum.inr i => b i)
      (fun k => match k with
        | Sum.inl (Sum.inl i) => b i
        | Sum.inl (Sum.inr _) => 0
        | Sum.inr (Sum.inl (Sum.inl j)) => - f j
        | Sum.inr (Sum.inl (Sum.inr j)) => f j
        | Sum.inr (Sum.inr _) => 0) with ⟨v, hv⟩ | ⟨z, h0, h1, h2⟩
  · left
    have sw : ∀ j, ∑ i, v (Sum.inr i) * a i j = ∑ i, a i j * v (Sum.inr i) := fun j =>
      Finset.sum_congr rfl fun i _ => mul_comm _ _
    refine ⟨fun j => v (Sum.inl j), fun i => v (Sum.inr i), fun i => ?_, fun i => ?_, fun j => ?_, ?_⟩
    · simpa [Fintype.sum_sum_type] using hv (Sum.inl (Sum.inl i))
    · have := hv (Sum.inl (Sum.inr i))
      simp [Fintype.sum_sum_type] at this
      exact this
    · have u := hv (Sum.inr (Sum.inl (Sum.inl j)))
      have l := hv (Sum.inr (Sum.inl (Sum.inr j)))
      simp [Fintype.sum_sum_type, Finset.sum_neg_distrib] at u l
      rw [sw j]
      linarith
    · have := hv (Sum.inr (Sum.inr ()))
      simp only [Fintype.sum_sum_type] at this
      have e : ∑ i, v (Sum.inr i) * b i = ∑ i, b i * v (Sum.inr i) := Finset.sum_congr rfl fun i _ => mul_comm _ _
      rw [e]; exact this
  · right; right
    set s := z (Sum.inr (Sum.inr ())) with hs
    set u : ι → ℝ := fun i => z (Sum.inl (Sum.inl i)) with hu
    set t : ι → ℝ := fun i => z (Sum.inl (Sum.inr i)) with ht
    set p : J → ℝ := fun j => z (Sum.inr (Sum.inl (Sum.inr j))) - z (Sum.inr (Sum.inl (Sum.inl j))) with hp
    have e1 : ∀ j, ∑ i, u i * a i j + s * f j = 0 := by
      intro j
      have := h1 (Sum.inl j)
      simpa [Fintype.sum_sum_type] using this
    have e2 : ∀ i, ∑ j, a i j * p j = s * b i - t i := by
      intro i
      have := h1 (Sum.inr i)
      simp [Fintype.sum_sum_type] at this
      simp only [hp, mul_sub, Finset.sum_sub_distrib, ht]
      have c1 : ∑ j, a i j * z (Sum.inr (Sum.inl (Sum.inr j))) = ∑ j, z (Sum.inr (Sum.inl (Sum.inr j))) * a i j :=
        Finset.sum_congr rfl fun j _ => mul_comm _ _
      have c2 : ∑ j, a i j * z (Sum.inr (Sum.inl (Sum.inl j))) = ∑ j, z (Sum.inr (Sum.inl (Sum.inl j))) * a i j :=
        Finset.sum_congr rfl fun j _ => mul_comm _ _
      rw [c1, c2]
      linarith
    have e3 : ∑ i, u i * b i + ∑ j, f j * p j < 0 := by
      simp [Fintype.sum_sum_type] at h2
      simp only [hp, mul_sub, Finset.sum_sub_distrib, hu]
      have c1 : ∑ j, f j * z (Sum.inr (Sum.inl (Sum.inr j))) = ∑ j, z (Sum.inr (Sum.inl (Sum.inr j))) * f j :=
        Finset.sum_congr rfl fun j _ => mul_comm _ _
      have c2 : ∑ j, f j * z (Sum.inr (Sum.inl (Sum.inl j))) = ∑ j, z (Sum.inr (Sum.inl (Sum.inl j))) * f j :=
        Finset.sum_congr rfl fun j _ => mul_comm _ _
      rw [c1, c2]
      linarith
    have hs0 : 0 ≤ s := h0 _
    have hu0 : ∀ i, 0 ≤ u i := fun i => h0 _
    have ht0 : ∀ i, 0 ≤ t i := fun i => h0 _
    rcases hs0.lt_or_eq with hpos | hzero
    · exfalso
      have k1 : ∑ j, (∑ i, u i * a i j) * p j = ∑ i, u i * (s * b i - t i) := by
        rw [sum_swap]; exact Finset.sum_congr rfl fun i _ => by rw [e2]
      have k2 : ∑ j, (∑ i, u i * a i j) * p j = - (s * ∑ j, f j * p j) := by
        rw [Finset.mul_sum, ← Finset.sum_neg_distrib]
        refine Finset.sum_congr rfl fun j _ => ?_
        have := e1 j
        have h : ∑ i, u i * a i j = - (s * f j) := by linarith
        rw [h]; ring
      have k3 : ∑ i, u i * (s * b i - t i) = s * ∑ i, u i * b i - ∑ i, u i * t i := by
        rw [Finset.mul_sum, ← Finset.sum_sub_distrib]
        exact Finset.sum_congr rfl fun i _ => by ring
      have k4 : 0 ≤ ∑ i, u i * t i := Finset.sum_nonneg fun i _ => mul_nonneg (hu0 i) (ht0 i)
      have := mul_neg_of_pos_of_neg hpos e3
      nlinarith
    · refine ⟨p, fun i => ?_, ?_⟩
      · rw [e2 i, ← hzero]; linarith [ht0 i]
      · have k1 : ∑ i, u i * ∑ j, a i j * x0 j = 0 := by
          rw [← sum_swap]
          refine Finset.sum_eq_zero fun j _ => ?_
          have := e1 j
          rw [← hzero] at this
          have h : ∑ i, u i * a i j = 0 := by linarith
          rw [h, zero_mul]
        have k2 : ∑ i, u i * ∑ j, a i j * x0 j ≤ ∑ i, u i * b i :=
          Finset.sum_le_sum fun i _ => mul_le_mul_of_nonneg_left (hx0 i) (hu0 i)
        linarith

/-- The same with equalities; the optimal point comes with its minimality and multipliers with complementary costs. -/
theorem lp_alternative {ι κ J : Type} [Fintype ι] [Fintype κ] [Fintype J] (a : ι → J → ℝ) (b : ι → ℝ) (c : κ → J → ℝ)
    (d : κ → ℝ) (f : J → ℝ) :
    (∃ (x : J → ℝ) (y : ι → ℝ) (z : κ → ℝ), (∀ i, ∑ j, a i j * x j ≤ b i) ∧ (∀ i, ∑ j, c i j * x j = d i) ∧ (∀ i, 0 ≤ y i) ∧
      (∀ j, f j + ∑ i, y i * a i j + ∑ i, z i * c i j = 0) ∧
      (∑ j, f j * x j + ∑ i, y i * b i + ∑ i, z i * d i = 0) ∧
      ∀ g : J → ℝ, (∀ i, ∑ j, a i j * g j ≤ b i) → (∀ i, ∑ j, c i j * g j = d i) → ∑ j, f j * x j ≤ ∑ j, f j * g j) ∨
    (¬ ∃ x : J → ℝ, (∀ i, ∑ j, a i j * x j ≤ b i) ∧ ∀ i, ∑ j, c i j * x j = d i) ∨
    (∃ r : J → ℝ, (∀ i, ∑ j, a i j * r j ≤ 0) ∧ (∀ i, ∑ j, c i j * r j = 0) ∧ ∑ j, f j * r j < 0) := by
  let m : ι ⊕ (κ ⊕ κ) → J → ℝ := fun k j => match k with
      | Sum.inl i => a i j
      | Sum.inr (Sum.inl i) => c i j
      | Sum.inr (Sum.inr i) => - c i j
  let q : ι ⊕ (κ ⊕ κ) → ℝ := fun k => match k with
      | Sum.inl i => b i
      | Sum.inr (Sum.inl i) => d i
      | Sum.inr (Sum.inr i) => - d i
  have eqs : ∀ (x : J → ℝ) (w : κ → ℝ), (∀ i, ∑ j, c i j * x j ≤ w i) → (∀ i, ∑ j, - c i j * x j ≤ - w i) →
      ∀ i, ∑ j, c i j * x j = w i := by
    intro x w u l i
    have u := u i
    have l := l i
    simp only [neg_mul, Finset.sum_neg_distrib] at l
    linarith
  rcases lp_alternative_ineq m q f with ⟨x, y, h1, h2, h3, h4⟩ | h | ⟨r, h1, h2⟩
  · left
    have st : ∀ j, f j + ∑ i, y (Sum.inl i) * a i j + ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * c i j = 0 := by
      intro j
      have := h3 j
      simp only [m, Fintype.sum_sum_type, mul_neg, Finset.sum_neg_distrib] at this
      simp only [sub_mul, Finset.sum_sub_distrib]
      linarith
    have hc : ∀ i, ∑ j, c i j * x j = d i := eqs x d (fun i => h1 (Sum.inr (Sum.inl i))) (fun i => h1 (Sum.inr (Sum.inr i)))
    have weak : ∀ g : J → ℝ, (∀ i, ∑ j, a i j * g j ≤ b i) → (∀ i, ∑ j, c i j * g j = d i) →
        0 ≤ ∑ j, f j * g j + ∑ i, y (Sum.inl i) * b i + ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * d i := by
      intro g ga gc
      have k0 : ∑ j, (f j + ∑ i, y (Sum.inl i) * a i j + ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * c i j) * g j = 0 :=
        Finset.sum_eq_zero fun j _ => by rw [st j, zero_mul]
      simp only [add_mul, Finset.sum_add_distrib] at k0
      rw [sum_swap, sum_swap] at k0
      have k1 : ∑ i, y (Sum.inl i) * ∑ j, a i j * g j ≤ ∑ i, y (Sum.inl i) * b i :=
        Finset.sum_le_sum fun i _ => mul_le_mul_of_nonneg_left (ga i) (h2 _)
      have k2 : ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * ∑ j, c i j * g j =
          ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * d i :=
        Finset.sum_congr rfl fun i _ => by rw [gc i]
      linarith
    have h4' : ∑ j, f j * x j + ∑ i, y (Sum.inl i) * b i + ∑ i, (y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i))) * d i ≤ 0 := by
      simp only [q, Fintype.sum_sum_type, mul_neg, Finset.sum_neg_distrib] at h4
      simp only [sub_mul, Finset.sum_sub_distrib]
      linarith
    refine ⟨x, fun i => y (Sum.inl i), fun i => y (Sum.inr (Sum.inl i)) - y (Sum.inr (Sum.inr i)), fun i => h1 (Sum.inl i), hc,
      fun i => h2 _, st, le_antisymm h4' (weak x (fun i => h1 (Sum.inl i)) hc), fun g ga gc => ?_⟩
    have := weak g ga gc
    linarith
  · right; left
    rintro ⟨x, ha, hc⟩
    refine h ⟨x, fun k => ?_⟩
    rcases k with i | i | i
    · exact ha i
    · exact le_of_eq (hc i)
    · have := hc i
      simp only [m, q, neg_mul, Finset.sum_neg_distrib]
      linarith
  · right; right
    refine ⟨r, fun i => h1 (Sum.inl i), eqs r (fun _ => 0) (fun i => h1 (Sum.inr (Sum.inl i))) (fun i => ?_), h2⟩
    have := h1 (Sum.inr (Sum.inr i))
    simpa [m] using this

#print axioms farkas
#print axioms stiemke_eq
#print axioms lp_alternative

end Pympc
