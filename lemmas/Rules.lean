import Mathlib

/-! Rules of linear algebra and counting that the contracts use as trusted facts. -/

namespace Pympc

open Matrix

/-- A left inverse of a square matrix is its inverse. -/
theorem left_inverse_is_inverse {n : Type} [Fintype n] [DecidableEq n] (L M : Matrix n n ℝ) (h : L * M = 1) : M * L = 1 :=
  mul_eq_one_comm.mp h

/-- An injective square matrix is invertible. -/
theorem injective_is_invertible {n : Type} [Fintype n] [DecidableEq n] (M : Matrix n n ℝ) (h : ∀ w, M *ᵥ w = 0 → w = 0) :
    IsUnit M := by
  rw [← Matrix.mulVec_injective_iff_isUnit]
  intro x y hxy
  have hxy : M *ᵥ x = M *ᵥ y := hxy
  have := h (x - y) (by rw [Matrix.mulVec_sub, hxy, sub_self])
  exact sub_eq_zero.mp this

/-- `nullspace_basis` of a matrix with orthonormal rows has as many columns as coordinates minus rows. -/
theorem orthonormal_rows_nullity {m n k : ℕ} (C : Matrix (Fin m) (Fin n) ℝ) (N : Matrix (Fin n) (Fin k) ℝ)
    (hC : C * Cᵀ = 1) (hCN : C * N = 0) (hN : Nᵀ * N = 1) (hall : ∀ z, C *ᵥ z = 0 → z = N *ᵥ (Nᵀ *ᵥ z)) : k + m = n := by
  have surj : LinearMap.range C.mulVecLin = ⊤ := by
    rw [LinearMap.range_eq_top]
    intro y
    exact ⟨Cᵀ *ᵥ y, by simp [Matrix.mulVec_mulVec, hC]⟩
  have inj : Function.Injective N.mulVecLin := by
    intro x y hxy
    have h : Nᵀ *ᵥ (N *ᵥ x) = Nᵀ *ᵥ (N *ᵥ y) := by
      have : N *ᵥ x = N *ᵥ y := hxy
      rw [this]
    simpa [Matrix.mulVec_mulVec, hN] using h
  have ker : LinearMap.ker C.mulVecLin = LinearMap.range N.mulVecLin := by
    ext z
    constructor
    · intro hz
      have hz : C *ᵥ z = 0 := hz
      exact ⟨Nᵀ *ᵥ z, (hall z hz).symm⟩
    · rintro ⟨w, rfl⟩
      show C *ᵥ (N *ᵥ w) = 0
      rw [Matrix.mulVec_mulVec, hCN, Matrix.zero_mulVec]
  have rn := LinearMap.finrank_range_add_finrank_ker C.mulVecLin
  rw [surj, ker, LinearMap.finrank_range_of_inj inj] at rn
  simp at rn
  omega

/-- Different coordinates followed by the others, each once: a permutation, so the sizes add up. -/
theorem partition_is_permutation {r c n : ℕ} (f : Fin r → Fin n) (g : Fin c → Fin n) (hf : Function.Injective f)
    (hg : Function.Injective g) (hd : ∀ i j, f i ≠ g j) (hs : ∀ k, (∃ i, f i = k) ∨ ∃ j, g j = k) :
    Function.Bijective (Sum.elim f g) ∧ r + c = n := by
  have b : Function.Bijective (Sum.elim f g) := by
    refine ⟨Function.Injective.sumElim hf hg hd, fun k => ?_⟩
    rcases hs k with ⟨i, h⟩ | ⟨j, h⟩
    · exact ⟨Sum.inl i, h⟩
    · exact ⟨Sum.inr j, h⟩
  refine ⟨b, ?_⟩
  have := Fintype.card_congr (Equiv.ofBijective _ b)
  simpa using this

/-- Counting: removing row `j` lowers the number of rows equal to `g` by one exactly when row `j` is `g`. -/
theorem count_remove {α : Type} [DecidableEq α] (l₁ l₂ : List α) (x g : α) :
    (l₁ ++ x :: l₂).count g = (l₁ ++ l₂).count g + (if x = g then 1 else 0) := by
  simp [List.count_append, List.count_cons, add_assoc]

/-- Equal counts of every vector: the rows of one matrix are those of the other up to their order. -/
theorem counts_permutation {α : Type} [DecidableEq α] (l₁ l₂ : List α) (h : ∀ g, l₁.count g = l₂.count g) : l₁.Perm l₂ :=
  List.perm_iff_count.mpr h

/-- Sums of nonnegative terms. -/
theorem sum_nonneg_rule {ι : Type} [Fintype ι] (f : ι → ℝ) (h : ∀ i, 0 ≤ f i) : 0 ≤ ∑ i, f i :=
  Finset.sum_nonneg fun i _ => h i

theorem sum_zero_rule {ι : Type} [Fintype ι] (f : ι → ℝ) (h : ∀ i, 0 ≤ f i) (hs : ∑ i, f i = 0) : ∀ i, f i = 0 := by
  intro i
  exact (Finset.sum_eq_zero_iff_of_nonneg fun i _ => h i).mp hs i (Finset.mem_univ i)

theorem dot_zero_rule {ι : Type} [Fintype ι] (z w : ι → ℝ) (h : ∀ i, z i = 0) : ∑ i, z i * w i = 0 ∧ ∑ i, w i * z i = 0 := by
  simp [h]

theorem squares_nonneg_rule {ι : Type} [Fintype ι] (w : ι → ℝ) : 0 ≤ ∑ i, w i * w i :=
  Finset.sum_nonneg fun i _ => mul_self_nonneg (w i)

theorem mul_nonneg_rule (f g : ℝ) (hf : 0 ≤ f) (hg : 0 ≤ g) : 0 ≤ f * g := mul_nonneg hf hg

/-- The ball of radius `R` around `c` satisfies `e.x <= b` exactly when `e.c + |e| R <= b`. -/
theorem ball_in_halfspace {n : ℕ} (e c : EuclideanSpace ℝ (Fin n)) (b R : ℝ) (hR : 0 ≤ R) :
    (∀ x, ‖x - c‖ ≤ R → inner ℝ e x ≤ b) ↔ inner ℝ e c + ‖e‖ * R ≤ b := by
  constructor
  · intro h
    by_cases he : e = 0
    · have := h c (by simpa using hR)
      simpa [he] using this
    · have hn : 0 < ‖e‖ := norm_pos_iff.mpr he
      have := h (c + (R / ‖e‖) • e) (by
        rw [add_sub_cancel_left, norm_smul, Real.norm_eq_abs, abs_of_nonneg (div_nonneg hR hn.le), div_mul_cancel₀ _ hn.ne'])
      rw [inner_add_right, inner_smul_right, real_inner_self_eq_norm_sq] at this
      have e1 : R / ‖e‖ * ‖e‖ ^ 2 = ‖e‖ * R := by
        field_simp
      linarith
  · intro h x hx
    have k : inner ℝ e x = inner ℝ e c + inner ℝ e (x - c) := by rw [inner_sub_right]; ring
    have cs := real_inner_le_norm e (x - c)
    have := mul_le_mul_of_nonneg_left hx (norm_nonneg e)
    linarith

/-- A set of states from which one more step stays admissible is invariant (maximal constraint admissible invariant sets):
admissibility up to `t` implies admissibility at `t + 1`, hence at all times. -/
theorem admissible_forever {X : Type} (step : X → X) (P : X → Prop) (t : ℕ)
    (h : ∀ x, (∀ k ≤ t, P (step^[k] x)) → P (step^[t + 1] x)) :
    ∀ x, (∀ k ≤ t, P (step^[k] x)) → ∀ k, P (step^[k] x) := by
  have inv : ∀ x, (∀ k ≤ t, P (step^[k] x)) → ∀ k ≤ t, P (step^[k] (step x)) := by
    intro x hx k hk
    rw [← Function.iterate_succ_apply]
    rcases Nat.lt_or_ge k t with hlt | hge
    · exact hx (k + 1) hlt
    · have : k = t := le_antisymm hk hge
      subst this
      exact h x hx
  have all : ∀ j x, (∀ k ≤ t, P (step^[k] x)) → P (step^[j] x) := by
    intro j
    induction j with
    | zero => intro x hx; exact hx 0 (Nat.zero_le _)
    | succ j ih =>
      intro x hx
      rw [Function.iterate_succ_apply]
      exact ih (step x) (inv x hx)
  exact fun x hx k => all k x hx

#print axioms left_inverse_is_inverse
#print axioms injective_is_invertible
#print axioms orthonormal_rows_nullity
#print axioms partition_is_permutation
#print axioms count_remove
#print axioms counts_permutation
#print axioms sum_nonneg_rule
#print axioms sum_zero_rule
#print axioms dot_zero_rule
#print axioms squares_nonneg_rule
#print axioms mul_nonneg_rule
#print axioms ball_in_halfspace
#print axioms admissible_forever

end Pympc
