/-! Algebra of the kriging systems.

`Kriging.A`, `Kriging.b`, `Kriging.bK`, `Kriging.est`, `Kriging.var`, ... are printed by pyvc/leanlem.py from the
specification functions (pyvc/u_ok.py, pyvc/spec.py) which the contracts of the code are proved against; see the
generated part above.  `p = 0` gives ordinary kriging. -/

namespace Kriging
variable {n p : ℕ} {D : ℕ → ℕ → ℝ} {γ : ℝ → ℝ} {fd : ℕ → ℕ → ℝ} {fp : ℕ → ℝ} {bd : ℕ → ℝ} {Z : ℕ → ℝ} {ex : Prop} {eps : ℝ}
variable {V : ℕ → ℕ → ℝ}

/-- a two-sided inverse of the N×N system M -/
def IsInv (N : ℕ) (M V : ℕ → ℕ → ℝ) : Prop :=
  (∀ i < N, ∀ k < N, ∑ j ∈ range N, M i j * V j k = if i = k then 1 else 0) ∧
  (∀ i < N, ∀ k < N, ∑ j ∈ range N, V i j * M j k = if i = k then 1 else 0)

/-- the solution formula of the contracts -/
def sol (N : ℕ) (V : ℕ → ℕ → ℝ) (r : ℕ → ℝ) (k : ℕ) : ℝ := ∑ j ∈ range N, V k j * r j

theorem sol_solves {N : ℕ} {M V : ℕ → ℕ → ℝ} (h : IsInv N M V) (r : ℕ → ℝ) {i : ℕ} (hi : i < N) :
    ∑ k ∈ range N, M i k * sol N V r k = r i := by
  unfold sol
  simp_rw [mul_sum]
  rw [sum_comm]
  have : ∀ j ∈ range N, ∑ k ∈ range N, M i k * (V k j * r j) = if i = j then r j else 0 := by
    intro j hj
    have := h.1 i hi j (mem_range.1 hj)
    simp_rw [← mul_assoc, ← sum_mul, this]
    split <;> simp
  rw [sum_congr rfl this]
  simp [hi]

theorem sol_unique {N : ℕ} {M V : ℕ → ℕ → ℝ} (h : IsInv N M V) (r y : ℕ → ℝ)
    (hy : ∀ i < N, ∑ k ∈ range N, M i k * y k = r i) {k : ℕ} (hk : k < N) : y k = sol N V r k := by
  unfold sol
  have e : ∀ j ∈ range N, V k j * r j = ∑ m ∈ range N, V k j * M j m * y m := by
    intro j hj
    rw [← hy j (mem_range.1 hj), mul_sum]
    simp_rw [mul_assoc]
  rw [sum_congr rfl e, sum_comm]
  have : ∀ m ∈ range N, ∑ j ∈ range N, V k j * M j m * y m = if k = m then y m else 0 := by
    intro m hm
    rw [← sum_mul, h.2 k hk m (mem_range.1 hm)]
    split <;> simp
  rw [sum_congr rfl this]
  simp [hk]

/-- a generalised inverse (M P M = M) of an invertible system is its inverse: pinv, pinvh and least squares change nothing -/
theorem pinv_eq_inv {N : ℕ} {M V P : ℕ → ℕ → ℝ} (h : IsInv N M V)
    (hP : ∀ i < N, ∀ k < N, ∑ j ∈ range N, (∑ m ∈ range N, M i m * P m j) * M j k = M i k) :
    ∀ i < N, ∀ k < N, P i k = V i k := by
  have hMP : ∀ i < N, ∀ l < N, ∑ m ∈ range N, M i m * P m l = if i = l then 1 else 0 := by
    intro i hi l hl
    have e : ∑ k ∈ range N, (∑ j ∈ range N, (∑ m ∈ range N, M i m * P m j) * M j k) * V k l = ∑ k ∈ range N, M i k * V k l :=
      sum_congr rfl (fun k hk => by rw [hP i hi k (mem_range.1 hk)])
    rw [h.1 i hi l hl] at e
    rw [← e]
    simp_rw [sum_mul (s := range N) (f := fun j => (∑ m ∈ range N, M i m * P m j) * M j _)]
    rw [sum_comm]
    have : ∀ j ∈ range N, ∑ k ∈ range N, (∑ m ∈ range N, M i m * P m j) * M j k * V k l
        = if j = l then ∑ m ∈ range N, M i m * P m j else 0 := by
      intro j hj
      simp_rw [mul_assoc, ← mul_sum]
      rw [h.1 j (mem_range.1 hj) l hl]
      split <;> simp
    rw [sum_congr rfl this]
    simp [hl]
  intro i hi k hk
  have := sol_unique h (fun j => if j = k then 1 else 0) (fun m => P m k) (fun j hj => by simpa using hMP j hj k hk) hi
  rw [this]
  unfold sol
  simp [hk]

/-- a least-squares solution of an invertible system is its solution (normal equations) -/
theorem lsq_eq_sol {N : ℕ} {M V : ℕ → ℕ → ℝ} (h : IsInv N M V) (r y : ℕ → ℝ)
    (hy : ∀ i < N, ∑ k ∈ range N, M k i * (∑ j ∈ range N, M k j * y j - r k) = 0) {k : ℕ} (hk : k < N) : y k = sol N V r k := by
  refine sol_unique h r y ?_ hk
  intro i hi
  -- the residual is orthogonal to all columns of an invertible matrix
  have e : ∑ l ∈ range N, V l i * (∑ k ∈ range N, M k l * (∑ j ∈ range N, M k j * y j - r k)) = 0 :=
    sum_eq_zero (fun l hl => by rw [hy l (mem_range.1 hl), mul_zero])
  simp_rw [mul_sum (s := range N) (f := fun k => M k _ * (∑ j ∈ range N, M k j * y j - r k))] at e
  rw [sum_comm] at e
  have : ∀ k ∈ range N, ∑ l ∈ range N, V l i * (M k l * (∑ j ∈ range N, M k j * y j - r k))
      = if k = i then (∑ j ∈ range N, M k j * y j - r k) else 0 := by
    intro k hk
    have e2 : ∀ l ∈ range N, V l i * (M k l * (∑ j ∈ range N, M k j * y j - r k)) = M k l * V l i * (∑ j ∈ range N, M k j * y j - r k) := by
      intro l _; ring
    rw [sum_congr rfl e2, ← sum_mul, h.1 k (mem_range.1 hk) i hi]
    split <;> simp
  rw [sum_congr rfl this] at e
  simp only [sum_ite_eq', mem_range, hi, if_true] at e
  linarith

/-! ### the system of the contracts -/

theorem sizes : N n p = n + p + 1 ∧ Nb n p = n + p + 1 ∧ N0 n = n + 1 := by
  unfold N Nb N0
  omega

/-- ordinary kriging is the case without drift terms -/
theorem ordinary_system (i j : ℕ) : A0 n D γ i j = A n 0 D γ fd i j := by
  unfold A0 A
  split_ifs <;> first | rfl | omega

theorem ordinary_rhs (i : ℕ) : b0 n ex eps bd γ i = b n 0 ex eps bd γ fp i := by
  unfold b0 b
  split_ifs <;> first | rfl | omega

theorem A_last {k : ℕ} (hk : k < n + p + 1) : A n p D γ fd (n + p) k = if k < n then 1 else 0 := by
  unfold A
  split_ifs <;> first | rfl | omega

theorem A_drift {l k : ℕ} (hl : l < p) (hk : k < n + p + 1) : A n p D γ fd (n + l) k = if k < n then fd l k else 0 := by
  unfold A
  have e : n + l - n = l := by omega
  split_ifs <;> first | rfl | omega | (rw [e])

theorem b_last : b n p ex eps bd γ fp (n + p) = 1 := by
  unfold b
  split_ifs <;> first | rfl | omega

theorem b_drift {l : ℕ} (hl : l < p) : b n p ex eps bd γ fp (n + l) = fp l := by
  unfold b
  have e : n + l - n = l := by omega
  split_ifs <;> first | rfl | omega | (rw [e])

/-- the right-hand side of the statistics routine is the one of an exact evaluation -/
theorem bK_eq (hb : ∀ i < n, 0 ≤ bd i) {i : ℕ} (hi : i < n + 1) : bK n eps bd γ i = b n 0 True eps bd γ fp i := by
  unfold bK b
  rcases Nat.lt_or_ge i n with h | h
  · have := hb i h
    simp [h, this]
  · simp [Nat.not_lt.2 h]

private theorem cut {N n : ℕ} (h : n ≤ N) (f : ℕ → ℝ) : ∑ k ∈ range N, (if k < n then f k else 0) = ∑ k ∈ range n, f k := by
  rw [← sum_filter]
  congr 1
  ext k
  simp only [mem_filter, mem_range]
  omega

/-- abbreviation: the weights of the contracts -/
noncomputable def w (n p : ℕ) (V : ℕ → ℕ → ℝ) (ex : Prop) (eps : ℝ) (bd : ℕ → ℝ) (γ : ℝ → ℝ) (fp : ℕ → ℝ) (k : ℕ) : ℝ :=
  sol (n + p + 1) V (b n p ex eps bd γ fp) k

theorem est_is_weighted : est n p V ex eps bd γ fp Z = ∑ k ∈ range n, w n p V ex eps bd γ fp k * Z k := by
  unfold est w sol
  refine sum_congr rfl (fun k _ => ?_)
  rw [mul_comm]
  congr 1
  refine sum_congr (by congr 1; omega) (fun j _ => ?_)
  congr 1
  unfold b
  split_ifs <;> first | rfl | omega | simp_all

theorem var_is_product : var n p V ex eps bd γ fp = -∑ k ∈ range (n + p + 1), w n p V ex eps bd γ fp k * b n p ex eps bd γ fp k := by
  unfold var w sol
  congr 1
  refine sum_congr (by congr 1; omega) (fun k _ => ?_)
  congr 1
  · refine sum_congr (by congr 1; omega) (fun j _ => ?_)
    congr 1
    unfold b
    split_ifs <;> first | rfl | omega | simp_all
  · unfold b
    split_ifs <;> first | rfl | omega | simp_all

/-- P02: the weights sum to one -/
theorem weights_sum_to_one (h : IsInv (n + p + 1) (A n p D γ fd) V) : ∑ k ∈ range n, w n p V ex eps bd γ fp k = 1 := by
  have := sol_solves h (b n p ex eps bd γ fp) (i := n + p) (by omega)
  rw [b_last] at this
  rw [← this, ← cut (N := n + p + 1) (by omega)]
  refine sum_congr rfl (fun k hk => ?_)
  rw [A_last (mem_range.1 hk)]
  unfold w
  split <;> simp

/-- P03: the weights reproduce every drift term -/
theorem weights_reproduce_drift (h : IsInv (n + p + 1) (A n p D γ fd) V) {l : ℕ} (hl : l < p) :
    ∑ k ∈ range n, w n p V ex eps bd γ fp k * fd l k = fp l := by
  have := sol_solves h (b n p ex eps bd γ fp) (i := n + l) (by omega)
  rw [b_drift hl] at this
  rw [← this, ← cut (N := n + p + 1) (by omega)]
  refine sum_congr rfl (fun k hk => ?_)
  rw [A_drift hl (mem_range.1 hk)]
  unfold w
  split <;> ring

/-- P02: constant fields are reproduced -/
theorem constant_field (h : IsInv (n + p + 1) (A n p D γ fd) V) (c : ℝ) : est n p V ex eps bd γ fp (fun _ => c) = c := by
  rw [est_is_weighted, ← sum_mul, weights_sum_to_one h, one_mul]

/-- P02: the estimate is linear in the data -/
theorem estimate_linear (a c : ℝ) (Z' : ℕ → ℝ) :
    est n p V ex eps bd γ fp (fun k => a * Z k + c * Z' k) = a * est n p V ex eps bd γ fp Z + c * est n p V ex eps bd γ fp Z' := by
  simp_rw [est_is_weighted, mul_sum, ← sum_add_distrib]
  exact sum_congr rfl (fun k _ => by ring)

/-- P02: adding a constant to the data adds it to the estimate -/
theorem estimate_shift (h : IsInv (n + p + 1) (A n p D γ fd) V) (c : ℝ) :
    est n p V ex eps bd γ fp (fun k => Z k + c) = est n p V ex eps bd γ fp Z + c := by
  have := estimate_linear (n := n) (p := p) (V := V) (ex := ex) (eps := eps) (bd := bd) (γ := γ) (fp := fp) (Z := Z) 1 1 (fun _ => c)
  simp only [one_mul] at this
  rw [this, constant_field h]

/-- P03: a field spanned by the drift terms and a constant is reproduced -/
theorem drift_field (h : IsInv (n + p + 1) (A n p D γ fd) V) (a : ℕ → ℝ) (c : ℝ) :
    est n p V ex eps bd γ fp (fun k => ∑ l ∈ range p, a l * fd l k + c) = ∑ l ∈ range p, a l * fp l + c := by
  rw [estimate_shift h, est_is_weighted]
  congr 1
  simp_rw [mul_sum]
  rw [sum_comm]
  refine sum_congr rfl (fun l hl => ?_)
  rw [← weights_reproduce_drift (ex := ex) (eps := eps) (bd := bd) (fp := fp) h (mem_range.1 hl), mul_sum]
  exact sum_congr rfl (fun k _ => by ring)

section exactness
variable {m : ℕ}

/-- at datum m (exact, distinct locations) the right-hand side is column m of the system -/
theorem column (hm : m < n) (hex : ex) (hbd : ∀ i < n, bd i = D i m) (hz : ∀ i < n, (|bd i| ≤ eps ↔ i = m)) (hfp : ∀ l < p, fp l = fd l m)
    {i : ℕ} (hi : i < n + p + 1) : A n p D γ fd i m = b n p ex eps bd γ fp i := by
  rcases Nat.lt_or_ge i n with h | h
  · have hz' := hz i h
    have e : (if bd i ≥ 0 then bd i else -bd i) = |bd i| := by
      split
      · rw [abs_of_nonneg]; assumption
      · rw [abs_of_neg]; linarith
    unfold A b
    rw [e]
    by_cases him : i = m
    · subst him; simp_all
    · have := hbd i h
      simp_all
  · unfold A b
    rcases Nat.lt_or_ge i (n + p) with h2 | h2
    · have := hfp (i - n) (by omega)
      simp [Nat.not_lt.2 h, h2, hm, this]
    · simp [Nat.not_lt.2 h, Nat.not_lt.2 h2, hm]

/-- P01: the weights at a datum select it -/
theorem weights_at_datum (h : IsInv (n + p + 1) (A n p D γ fd) V) (hm : m < n) (hex : ex) (hbd : ∀ i < n, bd i = D i m)
    (hz : ∀ i < n, (|bd i| ≤ eps ↔ i = m)) (hfp : ∀ l < p, fp l = fd l m) {k : ℕ} (hk : k < n + p + 1) :
    w n p V ex eps bd γ fp k = if k = m then 1 else 0 := by
  refine (sol_unique h _ (fun k => if k = m then 1 else 0) (fun i hi => ?_) hk).symm
  have hm' : m < n + p + 1 := by omega
  simp only [mul_ite, mul_one, mul_zero, sum_ite_eq', mem_range, hm', if_true]
  exact column hm hex hbd hz hfp hi

/-- P01: the datum is returned -/
theorem datum_returned (h : IsInv (n + p + 1) (A n p D γ fd) V) (hm : m < n) (hex : ex) (hbd : ∀ i < n, bd i = D i m)
    (hz : ∀ i < n, (|bd i| ≤ eps ↔ i = m)) (hfp : ∀ l < p, fp l = fd l m) : est n p V ex eps bd γ fp Z = Z m := by
  rw [est_is_weighted]
  have : ∀ k ∈ range n, w n p V ex eps bd γ fp k * Z k = if k = m then Z k else 0 := by
    intro k hk
    rw [weights_at_datum h hm hex hbd hz hfp (by have := mem_range.1 hk; omega)]
    split <;> simp
  rw [sum_congr rfl this]
  simp [hm]

/-- P01: with variance zero -/
theorem variance_zero (h : IsInv (n + p + 1) (A n p D γ fd) V) (hm : m < n) (hex : ex) (hbd : ∀ i < n, bd i = D i m)
    (hz : ∀ i < n, (|bd i| ≤ eps ↔ i = m)) (hfp : ∀ l < p, fp l = fd l m) : var n p V ex eps bd γ fp = 0 := by
  rw [var_is_product]
  have hm' : m < n + p + 1 := by omega
  have : ∀ k ∈ range (n + p + 1), w n p V ex eps bd γ fp k * b n p ex eps bd γ fp k = if k = m then b n p ex eps bd γ fp k else 0 := by
    intro k hk
    rw [weights_at_datum h hm hex hbd hz hfp (mem_range.1 hk)]
    split <;> simp
  rw [sum_congr rfl this]
  simp only [sum_ite_eq', mem_range, hm', if_true]
  rw [← column (D := D) (fd := fd) hm hex hbd hz hfp hm']
  unfold A
  simp [hm]
end exactness

section order
/-- P06: the order of the data does not matter, so a window of all data is the global system -/
theorem order_irrelevant (σ : Equiv.Perm ℕ) (hσ : ∀ i, n ≤ i → σ i = i) {V' : ℕ → ℕ → ℝ}
    (h : IsInv (n + p + 1) (A n p D γ fd) V)
    (h' : IsInv (n + p + 1) (A n p (fun i j => D (σ i) (σ j)) γ (fun l i => fd l (σ i))) V') :
    est n p V' ex eps (fun i => bd (σ i)) γ fp (fun i => Z (σ i)) = est n p V ex eps bd γ fp Z ∧
    var n p V' ex eps (fun i => bd (σ i)) γ fp = var n p V ex eps bd γ fp := by
  have hlt : ∀ i, i < n ↔ σ i < n := by
    intro i
    constructor
    · intro hi
      by_contra hc
      have := hσ (σ i) (by omega)
      have := σ.injective this
      omega
    · intro hi
      by_contra hc
      have := hσ i (by omega)
      omega
  have hltN : ∀ N, n ≤ N → ∀ i, i < N ↔ σ i < N := by
    intro N hN i
    rcases Nat.lt_or_ge i n with hi | hi
    · have := (hlt i).1 hi; omega
    · rw [hσ i hi]
  have hA : ∀ i j, A n p (fun i j => D (σ i) (σ j)) γ (fun l i => fd l (σ i)) i j = A n p D γ fd (σ i) (σ j) := by
    intro i j
    unfold A
    rcases Nat.lt_or_ge i n with hi | hi <;> rcases Nat.lt_or_ge j n with hj | hj
    · have h1 := (hlt i).1 hi
      have h2 := (hlt j).1 hj
      simp [hi, hj, h1, h2]
    · have h1 := (hlt i).1 hi
      rw [hσ j hj]; simp [hi, h1, Nat.not_lt.2 hj]
    · have h1 := (hlt j).1 hj
      rw [hσ i hi]; simp [hj, h1, Nat.not_lt.2 hi]
    · rw [hσ i hi, hσ j hj]; simp [Nat.not_lt.2 hi, Nat.not_lt.2 hj]
  have hb : ∀ i, b n p ex eps (fun i => bd (σ i)) γ fp i = b n p ex eps bd γ fp (σ i) := by
    intro i
    unfold b
    rcases Nat.lt_or_ge i n with hi | hi
    · have h1 := (hlt i).1 hi
      simp [hi, h1]
    · rw [hσ i hi]; simp [Nat.not_lt.2 hi]
  have re : ∀ N, n ≤ N → ∀ f : ℕ → ℝ, ∑ k ∈ range N, f (σ k) = ∑ k ∈ range N, f k := by
    intro N hN f
    refine sum_bij (fun k _ => σ k) (fun k hk => mem_range.2 ((hltN N hN k).1 (mem_range.1 hk))) (fun _ _ _ _ e => σ.injective e) ?_ (fun _ _ => rfl)
    intro k hk
    refine ⟨σ.symm k, mem_range.2 ((hltN N hN _).2 (by simpa using hk)), by simp⟩
  have hw : ∀ k < n + p + 1, w n p V' ex eps (fun i => bd (σ i)) γ fp k = w n p V ex eps bd γ fp (σ k) := by
    intro k hk
    refine (sol_unique h' _ (fun k => w n p V ex eps bd γ fp (σ k)) (fun i hi => ?_) hk).symm
    simp_rw [hA, hb]
    rw [re (n + p + 1) (by omega) (fun k => A n p D γ fd (σ i) k * w n p V ex eps bd γ fp k)]
    exact sol_solves h _ ((hltN _ (by omega) i).1 hi)
  constructor
  · rw [est_is_weighted, est_is_weighted, ← re n le_rfl (fun k => w n p V ex eps bd γ fp k * Z k)]
    exact sum_congr rfl (fun k hk => by rw [hw k (by have := mem_range.1 hk; omega)])
  · rw [var_is_product, var_is_product, ← re (n + p + 1) (by omega) (fun k => w n p V ex eps bd γ fp k * b n p ex eps bd γ fp k)]
    congr 1
    exact sum_congr rfl (fun k hk => by rw [hw k (mem_range.1 hk), hb])
end order
end Kriging
