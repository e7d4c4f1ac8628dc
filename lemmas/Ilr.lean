/-! The isometric log-ratio transform and its inverse.

`Ilr.ilr` and `Ilr.inverse` are printed by pyvc/leanlem.py from the specification functions (pyvc/u_wrap.py) which the
contracts of the code are proved against. -/

namespace Ilr

theorem row_sum_ge (k i m : ℕ) (hm : i + 2 ≤ m) : ∑ q ∈ range m, helmert k i q = 0 := by
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hm
  clear hm
  induction d with
  | zero =>
    rw [add_zero, sum_range_succ]
    have e : ∀ q ∈ range (i + 1), helmert k i q = 1 / Real.sqrt ((i + 1) * (i + 2)) := by
      intro q hq
      unfold helmert
      rw [if_pos (mem_range.1 hq)]
    rw [sum_congr rfl e, sum_const, card_range, nsmul_eq_mul]
    unfold helmert
    rw [if_neg (lt_irrefl _), if_pos rfl]
    push_cast
    ring
  | succ d ih =>
    rw [← add_assoc, sum_range_succ, ih]
    unfold helmert
    rw [if_neg (by omega), if_neg (by omega), add_zero]

theorem row_norm_ge (k i m : ℕ) (hm : i + 2 ≤ m) : ∑ q ∈ range m, helmert k i q * helmert k i q = 1 := by
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hm
  clear hm
  induction d with
  | zero =>
    have hp : (0 : ℝ) < ((i : ℝ) + 1) * (i + 2) := by positivity
    have hs : Real.sqrt (((i : ℝ) + 1) * (i + 2)) * Real.sqrt (((i : ℝ) + 1) * (i + 2)) = ((i : ℝ) + 1) * (i + 2) :=
      Real.mul_self_sqrt hp.le
    rw [add_zero, sum_range_succ]
    have e : ∀ q ∈ range (i + 1), helmert k i q * helmert k i q = 1 / (((i : ℝ) + 1) * (i + 2)) := by
      intro q hq
      unfold helmert
      rw [if_pos (mem_range.1 hq), div_mul_div_comm, hs, one_mul]
    rw [sum_congr rfl e, sum_const, card_range, nsmul_eq_mul]
    unfold helmert
    rw [if_neg (lt_irrefl _), if_pos rfl, div_mul_div_comm, hs]
    have h1 : ((i : ℝ) + 1) ≠ 0 := by positivity
    have h2 : ((i : ℝ) + 2) ≠ 0 := by positivity
    push_cast
    field_simp
    ring
  | succ d ih =>
    rw [← add_assoc, sum_range_succ, ih]
    unfold helmert
    rw [if_neg (by omega), if_neg (by omega), mul_zero, add_zero]

theorem row_orth_lt (k i j m : ℕ) (hij : i < j) (hm : j + 2 ≤ m) : ∑ q ∈ range m, helmert k i q * helmert k j q = 0 := by
  have e : ∀ q ∈ range m, helmert k i q * helmert k j q = helmert k i q * (1 / Real.sqrt (((j : ℝ) + 1) * (j + 2))) := by
    intro q _
    by_cases hq : q < i + 2
    · congr 1
      unfold helmert
      rw [if_pos (by omega)]
    · have : helmert k i q = 0 := by
        unfold helmert
        rw [if_neg (by omega), if_neg (by omega)]
      rw [this, zero_mul, zero_mul]
  rw [sum_congr rfl e, ← sum_mul, row_sum_ge k i m (by omega), zero_mul]

/-- the rows are orthonormal -/
theorem rows (k i j : ℕ) (hi : i < k - 1) (hj : j < k - 1) :
    ∑ q ∈ range k, helmert k i q * helmert k j q = if i = j then 1 else 0 := by
  rcases lt_trichotomy i j with h | h | h
  · rw [if_neg h.ne, row_orth_lt k i j k h (by omega)]
  · subst h
    rw [if_pos rfl, row_norm_ge k i k (by omega)]
  · rw [if_neg h.ne', ← row_orth_lt k j i k h (by omega)]
    exact sum_congr rfl (fun q _ => mul_comm _ _)

theorem row_sum (k i : ℕ) (hi : i < k - 1) : ∑ q ∈ range k, helmert k i q = 0 := row_sum_ge k i k (by omega)

/-- with a constant first row the matrix is orthogonal, so its columns are orthonormal too -/
theorem cols (k i j : ℕ) (hi : i < k) (hj : j < k) :
    ∑ r ∈ range (k - 1), helmert k r i * helmert k r j = (if i = j then 1 else 0) - 1 / k := by
  obtain ⟨m, rfl⟩ : ∃ m, k = m + 1 := ⟨k - 1, by omega⟩
  have hk : (0 : ℝ) < ((m + 1 : ℕ) : ℝ) := by positivity
  let s : ℝ := Real.sqrt ((m + 1 : ℕ) : ℝ)
  have hs : s * s = ((m + 1 : ℕ) : ℝ) := Real.mul_self_sqrt hk.le
  have hs0 : s ≠ 0 := by
    intro h
    rw [h] at hs
    simp at hs
    exact absurd hs.symm (by positivity)
  let Q : Matrix (Fin (m + 1)) (Fin (m + 1)) ℝ := fun a b => if a.1 < m then helmert (m + 1) a.1 b.1 else 1 / s
  have h1 : Q * Q.transpose = 1 := by
    ext a b
    rw [Matrix.mul_apply, Matrix.one_apply]
    simp only [Matrix.transpose_apply]
    have e : ∑ q : Fin (m + 1), Q a q * Q b q
        = ∑ q ∈ range (m + 1), (if a.1 < m then helmert (m + 1) a.1 q else 1 / s) * (if b.1 < m then helmert (m + 1) b.1 q else 1 / s) :=
      Fin.sum_univ_eq_sum_range (fun q => (if a.1 < m then helmert (m + 1) a.1 q else 1 / s) * (if b.1 < m then helmert (m + 1) b.1 q else 1 / s)) (m + 1)
    rw [e]
    by_cases ha : a.1 < m <;> by_cases hb : b.1 < m
    · simp only [if_pos ha, if_pos hb]
      rw [rows (m + 1) a.1 b.1 (by omega) (by omega)]
      simp [Fin.ext_iff]
    · simp only [if_pos ha, if_neg hb]
      rw [← sum_mul, row_sum (m + 1) a.1 (by omega), zero_mul, if_neg]
      intro h
      rw [h] at ha
      exact hb ha
    · simp only [if_neg ha, if_pos hb]
      rw [← mul_sum, row_sum (m + 1) b.1 (by omega), mul_zero, if_neg]
      intro h
      rw [h] at ha
      exact ha hb
    · simp only [if_neg ha, if_neg hb]
      rw [sum_const, card_range, nsmul_eq_mul, if_pos (Fin.ext (by omega)), div_mul_div_comm, hs]
      field_simp
  have h2 : Q.transpose * Q = 1 := mul_eq_one_comm.1 h1
  have h3 := congrFun (congrFun h2 ⟨i, hi⟩) ⟨j, hj⟩
  rw [Matrix.mul_apply, Matrix.one_apply] at h3
  simp only [Matrix.transpose_apply] at h3
  have e : ∑ q : Fin (m + 1), Q q ⟨i, hi⟩ * Q q ⟨j, hj⟩
      = ∑ q ∈ range (m + 1), (if q < m then helmert (m + 1) q i else 1 / s) * (if q < m then helmert (m + 1) q j else 1 / s) :=
    Fin.sum_univ_eq_sum_range (fun q => (if q < m then helmert (m + 1) q i else 1 / s) * (if q < m then helmert (m + 1) q j else 1 / s)) (m + 1)
  rw [e, sum_range_succ] at h3
  have e2 : ∑ q ∈ range m, (if q < m then helmert (m + 1) q i else 1 / s) * (if q < m then helmert (m + 1) q j else 1 / s)
      = ∑ q ∈ range m, helmert (m + 1) q i * helmert (m + 1) q j :=
    sum_congr rfl (fun q hq => by rw [if_pos (mem_range.1 hq), if_pos (mem_range.1 hq)])
  rw [e2] at h3
  simp only [lt_irrefl, if_false] at h3
  rw [div_mul_div_comm, hs, one_mul] at h3
  simp only [Fin.mk.injEq] at h3
  have : m + 1 - 1 = m := rfl
  rw [this]
  linarith

noncomputable def part (k : ℕ) (row : ℕ → ℝ) (j : ℕ) : ℝ := Real.exp (-1 * ∑ r ∈ range (k - 1), row r * helmert k r j)

theorem inverse_eq (k : ℕ) (row : ℕ → ℝ) (j : ℕ) : inverse k row j = part k row j * (∑ q ∈ range k, part k row q)⁻¹ := by
  unfold inverse part
  first | rfl | simp | (norm_num)

theorem part_pos (k : ℕ) (row : ℕ → ℝ) (j : ℕ) : 0 < part k row j := Real.exp_pos _

theorem total_pos (k : ℕ) (row : ℕ → ℝ) (hk : 0 < k) : 0 < ∑ q ∈ range k, part k row q :=
  sum_pos (fun q _ => part_pos k row q) ⟨0, mem_range.2 hk⟩

/-- the proportions are positive -/
theorem inverse_pos (k : ℕ) (row : ℕ → ℝ) (j : ℕ) (hk : 0 < k) : 0 < inverse k row j := by
  rw [inverse_eq]
  exact mul_pos (part_pos k row j) (inv_pos.2 (total_pos k row hk))

/-- and sum to one -/
theorem inverse_sum (k : ℕ) (row : ℕ → ℝ) (hk : 0 < k) : ∑ j ∈ range k, inverse k row j = 1 := by
  simp_rw [inverse_eq]
  rw [← sum_mul]
  exact mul_inv_cancel₀ (total_pos k row hk).ne'

theorem ilr_eq (k : ℕ) (row : ℕ → ℝ) (h : ∀ q < k, eps ≤ row q) (j : ℕ) :
    ilr k row j = -∑ q ∈ range k, Real.log (row q) * helmert k j q := by
  unfold ilr
  congr 1
  refine sum_congr rfl (fun q hq => ?_)
  rw [if_pos]
  have := h q (mem_range.1 hq)
  unfold eps at this
  exact this

/-- the transform undoes its inverse -/
theorem ilr_inverse (k : ℕ) (z : ℕ → ℝ) (h : ∀ q < k, eps ≤ inverse k z q) (j : ℕ) (hj : j < k - 1) :
    ilr k (inverse k z) j = z j := by
  have hk : 0 < k := by omega
  rw [ilr_eq k _ h]
  have hS := total_pos k z hk
  have e : ∀ q ∈ range k, Real.log (inverse k z q) * helmert k j q
      = -(∑ r ∈ range (k - 1), z r * (helmert k r q * helmert k j q)) - Real.log (∑ q ∈ range k, part k z q) * helmert k j q := by
    intro q _
    rw [inverse_eq, Real.log_mul (part_pos k z q).ne' (inv_pos.2 hS).ne', Real.log_inv]
    unfold part
    rw [Real.log_exp]
    simp_rw [← mul_assoc]
    rw [← sum_mul]
    ring
  rw [sum_congr rfl e, sum_sub_distrib, sum_neg_distrib, sum_comm, ← mul_sum, row_sum k j hj, mul_zero, sub_zero, neg_neg]
  have e2 : ∀ r ∈ range (k - 1), ∑ q ∈ range k, z r * (helmert k r q * helmert k j q) = if r = j then z r else 0 := by
    intro r hr
    rw [← mul_sum, rows k r j (mem_range.1 hr) hj]
    split <;> simp
  rw [sum_congr rfl e2]
  simp [hj]

noncomputable def clr (k : ℕ) (row : ℕ → ℝ) (q : ℕ) : ℝ := Real.log (row q) - (∑ t ∈ range k, Real.log (row t)) / k

theorem ilr_back (k : ℕ) (p : ℕ → ℝ) (h : ∀ q < k, eps ≤ p q) (j : ℕ) (hj : j < k) :
    ∑ r ∈ range (k - 1), ilr k p r * helmert k r j = -clr k p j := by
  simp_rw [ilr_eq k p h, neg_mul, sum_mul]
  rw [sum_neg_distrib, sum_comm]
  congr 1
  have e : ∀ q ∈ range k, ∑ r ∈ range (k - 1), Real.log (p q) * helmert k r q * helmert k r j
      = (if q = j then Real.log (p q) else 0) - Real.log (p q) / k := by
    intro q hq
    simp_rw [mul_assoc]
    rw [← mul_sum, cols k q j (mem_range.1 hq) hj, mul_sub]
    split <;> ring
  rw [sum_congr rfl e, sum_sub_distrib]
  unfold clr
  simp [hj, sum_div]

/-- the inverse undoes the transform, up to closure -/
theorem inverse_ilr (k : ℕ) (p : ℕ → ℝ) (h : ∀ q < k, eps ≤ p q) (j : ℕ) (hj : j < k) :
    inverse k (ilr k p) j = p j / ∑ q ∈ range k, p q := by
  have he : (0 : ℝ) < eps := by unfold eps; norm_num
  have e : ∀ q < k, part k (ilr k p) q = p q * Real.exp (-((∑ t ∈ range k, Real.log (p t)) / k)) := by
    intro q hq
    unfold part
    rw [ilr_back k p h q hq]
    unfold clr
    have : -1 * -(Real.log (p q) - (∑ t ∈ range k, Real.log (p t)) / k) = Real.log (p q) + -((∑ t ∈ range k, Real.log (p t)) / k) := by ring
    rw [this, Real.exp_add, Real.exp_log (lt_of_lt_of_le he (h q hq))]
  rw [inverse_eq, e j hj, sum_congr rfl (fun q hq => e q (mem_range.1 hq)), ← sum_mul]
  have hE : Real.exp (-((∑ t ∈ range k, Real.log (p t)) / k)) ≠ 0 := (Real.exp_pos _).ne'
  rw [mul_inv, mul_mul_mul_comm, mul_inv_cancel₀ hE, mul_one, div_eq_mul_inv]

/-- closed proportions come back as they are -/
theorem inverse_ilr_closed (k : ℕ) (p : ℕ → ℝ) (h : ∀ q < k, eps ≤ p q) (hs : ∑ q ∈ range k, p q = 1) (j : ℕ) (hj : j < k) :
    inverse k (ilr k p) j = p j := by
  rw [inverse_ilr k p h j hj, hs, div_one]

/-- the transform is an isometry: distances of the coordinates are distances of the centred log-ratios -/
theorem isometry (k : ℕ) (a b : ℕ → ℝ) (ha : ∀ q < k, eps ≤ a q) (hb : ∀ q < k, eps ≤ b q) (hk : 0 < k) :
    ∑ r ∈ range (k - 1), (ilr k a r - ilr k b r) ^ 2 = ∑ q ∈ range k, (clr k a q - clr k b q) ^ 2 := by
  let d : ℕ → ℝ := fun q => Real.log (a q) - Real.log (b q)
  have e1 : ∀ r, ilr k a r - ilr k b r = -∑ q ∈ range k, d q * helmert k r q := by
    intro r
    rw [ilr_eq k a ha, ilr_eq k b hb]
    simp only [d, sub_mul, sum_sub_distrib]
    ring
  have hk0 : (k : ℝ) ≠ 0 := by exact_mod_cast hk.ne'
  have e2 : ∀ q, clr k a q - clr k b q = d q - (∑ t ∈ range k, d t) / k := by
    intro q
    simp only [clr, d, sum_sub_distrib]
    ring
  simp_rw [e1, e2, neg_sq]
  have l : ∑ r ∈ range (k - 1), (∑ q ∈ range k, d q * helmert k r q) ^ 2
      = ∑ q ∈ range k, ∑ t ∈ range k, d q * d t * ((if q = t then 1 else 0) - 1 / k) := by
    simp_rw [sq, sum_mul_sum]
    rw [sum_comm]
    refine sum_congr rfl (fun q hq => ?_)
    rw [sum_comm]
    refine sum_congr rfl (fun t ht => ?_)
    rw [← cols k q t (mem_range.1 hq) (mem_range.1 ht), mul_sum]
    exact sum_congr rfl (fun r _ => by ring)
  rw [l]
  have m : ∀ q ∈ range k, ∑ t ∈ range k, d q * d t * ((if q = t then 1 else 0) - 1 / k) = d q ^ 2 - d q * (∑ t ∈ range k, d t) / k := by
    intro q hq
    simp_rw [mul_sub]
    rw [sum_sub_distrib]
    congr 1
    · simp [mem_range.1 hq, sq]
    · rw [← sum_mul, ← mul_sum]
      ring
  rw [sum_congr rfl m, sum_sub_distrib]
  have r : ∑ q ∈ range k, (d q - (∑ t ∈ range k, d t) / k) ^ 2
      = ∑ q ∈ range k, d q ^ 2 - 2 * ((∑ t ∈ range k, d t) / k) * (∑ q ∈ range k, d q) + k * ((∑ t ∈ range k, d t) / k) ^ 2 := by
    simp_rw [sub_sq]
    rw [sum_add_distrib, sum_sub_distrib, sum_const, card_range, nsmul_eq_mul]
    congr 2
    rw [mul_sum]
    exact sum_congr rfl (fun q _ => by ring)
  rw [r, ← sum_div, ← sum_mul]
  field_simp
  ring

/-- log-ratios of two parts are differences of the centred log-ratios -/
theorem clr_ratio (k : ℕ) (a : ℕ → ℝ) (i j : ℕ) (hi : 0 < a i) (hj : 0 < a j) :
    clr k a i - clr k a j = Real.log (a i / a j) := by
  unfold clr
  rw [Real.log_div hi.ne' hj.ne']
  ring

end Ilr
