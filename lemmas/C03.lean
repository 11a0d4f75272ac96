/- A loop filter realised as (S A S', S B, e, ·) with C S' = e shapes the
   quantization error by h whenever h * (1 - C (zI-A)^-1 B) = 1. -/
import Mathlib.RingTheory.PowerSeries.Basic
import Mathlib.Data.Matrix.Mul
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Real.Basic

open PowerSeries Matrix

theorem ntf_shaping {n : ℕ} (A S Si : Matrix (Fin n) (Fin n) ℝ)
    (B C : Fin n → ℝ) (k0 : Fin n)
    (hS : S * Si = 1)
    (hC : ∀ j, C ⬝ᵥ (fun k => Si k j) = if j = k0 then 1 else 0)
    (h : PowerSeries ℝ) (g : ℕ → ℝ) (hg0 : g 0 = 1)
    (hg : ∀ j, g (j + 1) = -(C ⬝ᵥ ((A ^ j) *ᵥ B)))
    (hh : h * PowerSeries.mk g = 1)
    (X : ℕ → Fin n → ℝ) (u v y : ℕ → ℝ) (hX0 : X 0 = 0)
    (hX : ∀ i, X (i + 1) = (S * A * Si) *ᵥ X i + (v i - u i) • (S *ᵥ B))
    (hy : ∀ i, y i = X i k0 + u i) :
    PowerSeries.mk (fun i => v i - u i) =
      h * PowerSeries.mk (fun i => v i - y i) := by
  have hS' : Si * S = 1 := mul_eq_one_comm.mp hS
  -- the state in the coordinates of (A, B, C)
  have hZ : ∀ i, Si *ᵥ X (i + 1) = A *ᵥ (Si *ᵥ X i) + (v i - u i) • B := by
    intro i
    rw [hX, mulVec_add, mulVec_smul, mulVec_mulVec, mulVec_mulVec,
      ← Matrix.mul_assoc, ← Matrix.mul_assoc, hS', Matrix.one_mul,
      Matrix.one_mulVec, mulVec_mulVec]
  have hCZ : ∀ i, C ⬝ᵥ (Si *ᵥ X i) = X i k0 := by
    intro i
    rw [dotProduct_mulVec]
    have : C ᵥ* Si = fun j => if j = k0 then 1 else 0 := by
      funext j; exact hC j
    rw [this]; simp [dotProduct]
  have hpow : ∀ j, A *ᵥ ((A ^ j) *ᵥ B) = (A ^ (j + 1)) *ᵥ B := by
    intro j; rw [mulVec_mulVec, ← pow_succ']
  have hsol : ∀ i, Si *ᵥ X i = ∑ m ∈ Finset.range i,
      (v m - u m) • ((A ^ (i - 1 - m)) *ᵥ B) := by
    intro i
    induction i with
    | zero => simp [hX0]
    | succ i ih =>
      rw [hZ, ih, mulVec_sum, Finset.sum_range_succ]
      congr 1
      · apply Finset.sum_congr rfl
        intro m hm
        have hm' := Finset.mem_range.mp hm
        rw [mulVec_smul, hpow]
        congr 3
        omega
      · simp
  have he : PowerSeries.mk (fun i => v i - y i) =
      PowerSeries.mk g * PowerSeries.mk (fun i => v i - u i) := by
    ext i
    rw [coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk,
      ← Finset.sum_range_reflect]
    simp only [coeff_mk]
    rw [Finset.sum_range_succ]
    have hlast : g (i + 1 - 1 - i) * (v (i - (i + 1 - 1 - i)) -
        u (i - (i + 1 - 1 - i))) = v i - u i := by
      have : i + 1 - 1 - i = 0 := by omega
      rw [this, hg0]; simp
    rw [hlast]
    have hs : ∀ m ∈ Finset.range i, g (i + 1 - 1 - m) *
        (v (i - (i + 1 - 1 - m)) - u (i - (i + 1 - 1 - m))) =
        -((v m - u m) * (C ⬝ᵥ ((A ^ (i - 1 - m)) *ᵥ B))) := by
      intro m hm
      have hm' := Finset.mem_range.mp hm
      have h1 : i + 1 - 1 - m = (i - 1 - m) + 1 := by omega
      have h2 : i - ((i - 1 - m) + 1) = m := by omega
      rw [h1, hg, h2]; ring
    rw [Finset.sum_congr rfl hs, Finset.sum_neg_distrib]
    have : X i k0 = ∑ m ∈ Finset.range i,
        (v m - u m) * (C ⬝ᵥ ((A ^ (i - 1 - m)) *ᵥ B)) := by
      rw [← hCZ, hsol, dotProduct_sum]
      apply Finset.sum_congr rfl
      intro m _
      rw [dotProduct_smul, smul_eq_mul]
    rw [hy, this]; ring
  rw [he, ← mul_assoc, hh, one_mul]

#print axioms ntf_shaping
