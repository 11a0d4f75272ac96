import Mathlib

/-- The value of a program whose objective and feasible set are jointly convex
in the arguments and the internal variables is convex in the arguments: `f` is
the infimum of `φ` over the feasible points (approached within any `ε`). -/
theorem partial_minimisation {X T : Type*} [AddCommGroup X] [Module ℝ X]
    [AddCommGroup T] [Module ℝ T] (C : Set (X × T)) (φ : X × T → ℝ)
    (hC : Convex ℝ C) (hφ : ConvexOn ℝ C φ) (f : X → ℝ)
    (lower : ∀ x t, (x, t) ∈ C → f x ≤ φ (x, t)) (x y : X)
    (hx : ∀ ε > 0, ∃ t, (x, t) ∈ C ∧ φ (x, t) ≤ f x + ε)
    (hy : ∀ ε > 0, ∃ t, (y, t) ∈ C ∧ φ (y, t) ≤ f y + ε)
    (a b : ℝ) (ha : 0 ≤ a) (hb : 0 ≤ b) (hab : a + b = 1) :
    f (a • x + b • y) ≤ a * f x + b * f y := by
  apply le_of_forall_pos_le_add
  intro ε hε
  obtain ⟨t, ht, hft⟩ := hx ε hε
  obtain ⟨s, hs, hfs⟩ := hy ε hε
  have hm : a • (x, t) + b • (y, s) ∈ C := hC ht hs ha hb hab
  have h1 := lower (a • x + b • y) (a • t + b • s) (by simpa using hm)
  have h2 := hφ.2 ht hs ha hb hab
  have e : a • (x, t) + b • (y, s) = (a • x + b • y, a • t + b • s) := by
    simp
  rw [e] at h2
  simp only [smul_eq_mul] at h2
  nlinarith [mul_le_mul_of_nonneg_left hft ha,
    mul_le_mul_of_nonneg_left hfs hb]

#print axioms partial_minimisation
