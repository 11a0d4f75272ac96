import Mathlib

open Complex

/-- parameters of the poles: index j' with 2 j' + o = -(2 j + o) mod 2 n has the
conjugate parameter -/
theorem conj_family (n : ℕ) (hn : 0 < n) (j j' o t : ℤ)
    (h : 2 * j' + o = -(2 * j + o) + 2 * n * t) :
    exp (((2 * j' + o) * Real.pi / n : ℝ) * I) =
      (starRingEnd ℂ) (exp (((2 * j + o) * Real.pi / n : ℝ) * I)) := by
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  rw [← Complex.exp_conj, map_mul, conj_I, Complex.conj_ofReal]
  rw [Complex.exp_eq_exp_iff_exists_int]
  refine ⟨t, ?_⟩
  have h' : (2 * (j' : ℂ) + o) = -(2 * j + o) + 2 * n * t := by exact_mod_cast h
  push_cast
  rw [h']
  field_simp

/-- and such an index exists among 0 .. n-1, o odd or even -/
theorem conj_index (n : ℤ) (hn : 0 < n) (j o : ℤ) :
    ∃ j' t : ℤ, 0 ≤ j' ∧ j' < n ∧ 2 * j' + o = -(2 * j + o) + 2 * n * t := by
  refine ⟨(-j - o) % n, -((-j - o) / n), Int.emod_nonneg _ hn.ne',
    Int.emod_lt_of_pos _ hn, ?_⟩
  have := Int.emod_add_mul_ediv (-j - o) n
  linarith [this]

/-- for odd o no parameter is a positive real, and for even n none is real: with
m = 1 - C/2 (low-pass) or cos + C/2 and n even (band-pass), a real m is not in
[-1, 1], so that no pole is on the unit circle -/
theorem odd_not_real (n : ℤ) (hn : 0 < n) (q : ℤ) (hq : q % 2 = 1) (t : ℤ)
    (ht : t % 2 = 0 ∨ n % 2 = 0) :
    ((q : ℝ) * Real.pi / n) ≠ t * Real.pi := by
  intro h
  have hn' : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hp := Real.pi_ne_zero
  have e : (q : ℝ) = t * n := by
    field_simp at h
    first
      | exact h
      | linarith
  have e' : q = t * n := by exact_mod_cast e
  have : (t * n) % 2 = 0 := by
    rcases ht with ht | ht <;> simp [Int.mul_emod, ht]
  omega

/-- on the unit circle, z + 1/z is real and in [-2, 2] -/
theorem on_circle (z m : ℂ) (h : z + 1 / z = 2 * m) (hz : ‖z‖ = 1) :
    m.im = 0 ∧ |m.re| ≤ 1 := by
  have h1 : 1 / z = (starRingEnd ℂ) z := by
    rw [one_div, Complex.inv_def, Complex.normSq_eq_norm_sq, hz]
    simp
  rw [h1, Complex.add_conj] at h
  have h2 : m = ((z.re : ℝ) : ℂ) := by
    have : (2 : ℂ) ≠ 0 := two_ne_zero
    apply mul_left_cancel₀ this
    rw [← h]; push_cast; ring
  rw [h2]
  refine ⟨Complex.ofReal_im _, ?_⟩
  rw [Complex.ofReal_re]
  exact (Complex.abs_re_le_norm z).trans hz.le

/-- inside of it there is one solution at most: the poles of conjugate
parameters are conjugate -/
theorem root_unique (z w m : ℂ) (hz : z ≠ 0) (hw : w ≠ 0)
    (h1 : z + 1 / z = 2 * m) (h2 : w + 1 / w = 2 * m)
    (hz1 : ‖z‖ < 1) (hw1 : ‖w‖ ≤ 1) : z = w := by
  have h : (z - w) * (z * w - 1) = 0 := by
    have e : z + 1 / z = w + 1 / w := h1.trans h2.symm
    field_simp at e
    linear_combination e
  rcases mul_eq_zero.mp h with h | h
  · exact sub_eq_zero.mp h
  · exfalso
    have e : z * w = 1 := sub_eq_zero.mp h
    have : ‖z‖ * ‖w‖ = 1 := by rw [← norm_mul, e, norm_one]
    have hz0 : 0 ≤ ‖z‖ := norm_nonneg z
    nlinarith [norm_nonneg w]

/-- at most half of the elements are selected, when the conjugate of a selected
one is not -/
theorem half_selected (n : ℕ) (s : Fin n → Fin n) (hs : ∀ j, s (s j) = j)
    (S : Finset (Fin n)) (h : ∀ j ∈ S, s j ∉ S) : 2 * S.card ≤ n := by
  classical
  have inj : Function.Injective s := fun a b e => by
    rw [← hs a, ← hs b, e]
  have d : Disjoint S (S.image s) := by
    rw [Finset.disjoint_left]
    intro a ha hb
    obtain ⟨b, hb', e⟩ := Finset.mem_image.mp hb
    exact h b hb' (e ▸ ha)
  have c : (S ∪ S.image s).card = S.card + S.card := by
    rw [Finset.card_union_of_disjoint d, Finset.card_image_of_injective S inj]
  have := Finset.card_le_univ (S ∪ S.image s)
  rw [c, Fintype.card_fin] at this
  omega

#print axioms conj_family
#print axioms conj_index
#print axioms odd_not_real
#print axioms on_circle
#print axioms root_unique
#print axioms half_selected
