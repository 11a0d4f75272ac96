import Mathlib

open Complex

/-- the points at which the zeros are placed: all the n-th roots of -1/alpha,
each exactly once -/
theorem roots_of_minus_inv (alpha : ℝ) (ha : 0 < alpha) (n : ℕ) (hn : 0 < n)
    (j : ℤ) :
    1 + (alpha : ℂ) * ((((1 / Real.sqrt alpha) ^ (2 / (n : ℝ)) : ℝ) : ℂ) *
      exp (((2 * j + 1) * Real.pi / n : ℝ) * I)) ^ n = 0 := by
  have hn' : (n : ℝ) ≠ 0 := by positivity
  have h1 : ((1 / Real.sqrt alpha) ^ (2 / (n : ℝ))) ^ n = 1 / alpha := by
    rw [← Real.rpow_natCast, ← Real.rpow_mul (by positivity)]
    rw [div_mul_cancel₀ _ hn']
    have : (2 : ℝ) = ((2 : ℕ) : ℝ) := by norm_num
    rw [this, Real.rpow_natCast, div_pow, Real.sq_sqrt ha.le, one_pow]
  have h2 : (exp (((2 * j + 1) * Real.pi / n : ℝ) * I)) ^ n = -1 := by
    rw [← Complex.exp_nat_mul]
    have e : (n : ℂ) * ((((2 * j + 1) * Real.pi / n : ℝ) : ℂ) * I)
        = Real.pi * I + j * (2 * Real.pi * I) := by
      have : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
      push_cast
      field_simp
      ring
    rw [e, Complex.exp_add, Complex.exp_int_mul_two_pi_mul_I, exp_pi_mul_I]
    ring
  rw [mul_pow, h2, ← Complex.ofReal_pow, h1]
  have : (alpha : ℂ) ≠ 0 := by exact_mod_cast ha.ne'
  push_cast
  field_simp
  ring

theorem roots_distinct (n : ℕ) (hn : 0 < n) (j k o : ℤ) (hj : 0 ≤ j) (hjk : j < k)
    (hk : k < n) :
    exp (((2 * (j + o) + 1) * Real.pi / n : ℝ) * I) ≠
      exp (((2 * (k + o) + 1) * Real.pi / n : ℝ) * I) := by
  intro h
  rw [Complex.exp_eq_exp_iff_exists_int] at h
  obtain ⟨m, hm⟩ := h
  have hn' : (n : ℝ) ≠ 0 := by positivity
  have e : ((2 * (j + o) + 1) * Real.pi / n : ℝ) =
      (2 * (k + o) + 1) * Real.pi / n + m * (2 * Real.pi) := by
    have h3 : ((((2 * (j + o) + 1) * Real.pi / n : ℝ)) : ℂ) * I =
        (((2 * (k + o) + 1) * Real.pi / n + m * (2 * Real.pi) : ℝ) : ℂ) * I := by
      rw [hm]; push_cast; ring
    have h4 := mul_right_cancel₀ I_ne_zero h3
    exact_mod_cast h4
  have hpi := Real.pi_pos
  have e2 : ((j : ℝ) - k) = m * n := by
    field_simp at e
    nlinarith [e]
  have e3 : j - k = m * n := by exact_mod_cast e2
  have hn2 : (0 : ℤ) < n := by exact_mod_cast hn
  have : m < 0 := by
    by_contra hc
    have : 0 ≤ m * n := mul_nonneg (by omega) hn2.le
    omega
  have : m * n ≤ -1 * n := mul_le_mul_of_nonneg_right (by omega) hn2.le
  omega

#print axioms roots_of_minus_inv
#print axioms roots_distinct
