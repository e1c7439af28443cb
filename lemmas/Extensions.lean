import Mathlib.Data.Int.Basic
import Mathlib.Data.Real.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic

/-!
The extensions specified in contracts/padspec.py exist: for every signal `g` on `[h, t)` (any values, `h < t`) there is a
function `S : ℤ → ℝ` that agrees with `g` on `[h, t)` and satisfies the mode's functional equations everywhere.  (For tensors of
higher rank this is used on every line along the padded axis.)  So the axioms the verifier assumes about `S` are consistent.
Also: the equations determine `S`, for the modes with a mirror or a period (`*_unique` for circular and symmetric), and the
variance lemma used by C15.
-/

namespace Ext

variable {h t : ℤ} (g : ℤ → ℝ)

theorem dm {P a q k : ℤ} (hP : 0 < P) (e : k + P * q = a) (h0 : 0 ≤ k) (h1 : k < P) : a / P = q ∧ a % P = k :=
  (Int.ediv_emod_unique hP).2 ⟨e, h0, h1⟩

/-- every integer is `k + P*q` with `0 ≤ k < P` -/
theorem split {P : ℤ} (hP : 0 < P) (a : ℤ) : ∃ q k, k + P * q = a ∧ 0 ≤ k ∧ k < P :=
  ⟨a / P, a % P, Int.emod_add_mul_ediv a P, Int.emod_nonneg a hP.ne', Int.emod_lt_of_pos a hP⟩

theorem replicate_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (∀ j, j < h → S j = S h) ∧ (∀ j, t ≤ j → S j = S (t - 1)) := by
  refine ⟨fun j => g (max h (min j (t - 1))), ?_, ?_, ?_⟩ <;> intro j <;> intros <;> simp only <;> congr 1 <;> omega

theorem circular_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (∀ j, S j = S (j + (t - h)) ∧ S j = S (j - (t - h))) := by
  have hP : 0 < t - h := by omega
  refine ⟨fun j => g (h + (j - h) % (t - h)), ?_, ?_⟩
  · intro j h1 h2
    obtain ⟨-, e⟩ := dm (P := t - h) (a := j - h) (q := 0) (k := j - h) hP (by ring) (by omega) (by omega)
    simp only [e]; congr 1; ring
  · intro j
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    have a := (dm hP e h0 h1).2
    have b := (dm (a := j + (t - h) - h) (q := q + 1) hP (by linarith [mul_add (t - h) q 1]) h0 h1).2
    have c := (dm (a := j - (t - h) - h) (q := q - 1) hP (by linarith [mul_sub (t - h) q 1]) h0 h1).2
    simp only [a, b, c, and_self]

/-- period `P`, the values over one period given by `f` -/
theorem periodic_ex (f : ℤ → ℝ) {P : ℤ} (hP : 0 < P) (h : ℤ) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < h + P → S j = f j) ∧
    (∀ j, S j = S (j + P) ∧ S j = S (j - P)) := by
  have := circular_ex (h := h) (t := h + P) f (by omega)
  simpa using this

theorem periodize_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    ((t - h) % 2 = 1 → S t = S (t - 1)) ∧
    (∀ j, S j = S (j + ((t - h) + (t - h) % 2)) ∧ S j = S (j - ((t - h) + (t - h) % 2))) := by
  obtain ⟨S, a, b⟩ := periodic_ex (fun j => if j < t then g j else g (t - 1)) (P := (t - h) + (t - h) % 2) (by omega) h
  refine ⟨S, ?_, ?_, b⟩
  · intro j h1 h2
    rw [a j h1 (by omega)]; simp [h2]
  · intro e
    rw [a t (by omega) (by omega), a (t - 1) (by omega) (by omega)]; simp

/-- symmetric (`s = 1`) and antisymmetric (`s = -1`) -/
theorem symmetric_ex (hL : h < t) (s : ℝ) (hs : s * s = 1) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (∀ j, S j = s * S (2 * h - 1 - j)) ∧ (∀ j, S j = s * S (2 * t - 1 - j)) := by
  set L := t - h with hLd
  have hP : 0 < 2 * L := by omega
  let F : ℤ → ℝ := fun k => if k < L then g (h + k) else s * g (h + (2 * L - 1 - k))
  have key : ∀ k, 0 ≤ k → k < 2 * L → F k = s * F (2 * L - 1 - k) := by
    intro k h0 h1
    by_cases c : k < L
    · have c' : ¬ (2 * L - 1 - k < L) := by omega
      simp only [F, c, c', if_true, if_false]
      rw [← mul_assoc, hs, one_mul]; congr 1; ring
    · have c' : 2 * L - 1 - k < L := by omega
      simp only [F, c, c', if_true, if_false]
  refine ⟨fun j => F ((j - h) % (2 * L)), ?_, ?_, ?_⟩
  · intro j h1 h2
    obtain ⟨-, e⟩ := dm (P := 2 * L) (a := j - h) (q := 0) (k := j - h) hP (by ring) (by omega) (by omega)
    have c : j - h < L := by omega
    simp only [e, F, c, if_true]; congr 1; ring
  · intro j
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    have a := (dm hP e h0 h1).2
    have b := (dm (P := 2 * L) (a := 2 * h - 1 - j - h) (q := -q - 1) (k := 2 * L - 1 - k) hP
      (by have : 2 * L * (-q - 1) = -(2 * L * q) - 2 * L := by ring
          rw [this]; omega) (by omega) (by omega)).2
    simp only [a, b]; exact key k h0 h1
  · intro j
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    have a := (dm hP e h0 h1).2
    have b := (dm (P := 2 * L) (a := 2 * t - 1 - j - h) (q := -q) (k := 2 * L - 1 - k) hP
      (by have : 2 * L * (-q) = -(2 * L * q) := by ring
          rw [this]; omega) (by omega) (by omega)).2
    simp only [a, b]; exact key k h0 h1

theorem reflect_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (t - h > 1 → ∀ j, S j = S (2 * h - j)) ∧ (t - h > 1 → ∀ j, S j = S (2 * (t - 1) - j)) ∧ (t - h = 1 → ∀ j, S j = S h) := by
  by_cases one : t - h = 1
  · refine ⟨fun _ => g h, ?_, ?_, ?_, ?_⟩
    · intro j _ _; have : j = h := by omega
      simp [this]
    · intros; rfl
    · intros; rfl
    · intros; rfl
  set L := t - h with hLd
  have hP : 0 < 2 * L - 2 := by omega
  let F : ℤ → ℝ := fun k => if k < L then g (h + k) else g (h + (2 * L - 2 - k))
  have key : ∀ k, 0 < k → k < 2 * L - 2 → F k = F (2 * L - 2 - k) := by
    intro k h0 h1
    by_cases c : k < L
    · by_cases c' : 2 * L - 2 - k < L
      · have : k = L - 1 := by omega
        subst this; congr 1; ring
      · simp only [F, c, c', if_true, if_false]; congr 1; ring
    · have c' : 2 * L - 2 - k < L := by omega
      simp only [F, c, c', if_true, if_false]
  have mir : ∀ j c : ℤ, (∃ r : ℤ, c = (2 * L - 2) * r) → F (j % (2 * L - 2)) = F ((c - j) % (2 * L - 2)) := by
    rintro j c ⟨r, rfl⟩
    obtain ⟨q, k, e, h0, h1⟩ := split hP j
    have a := (dm hP e h0 h1).2
    by_cases z : k = 0
    · have b := (dm (P := 2 * L - 2) (a := (2 * L - 2) * r - j) (q := r - q) (k := 0) hP (by rw [← e, z]; ring) (by omega) (by omega)).2
      rw [a, b, z]
    · have b := (dm (P := 2 * L - 2) (a := (2 * L - 2) * r - j) (q := r - q - 1) (k := 2 * L - 2 - k) hP (by rw [← e]; ring) (by omega) (by omega)).2
      rw [a, b]; exact key k (by omega) h1
  refine ⟨fun j => F ((j - h) % (2 * L - 2)), ?_, ?_, ?_, ?_⟩
  · intro j h1 h2
    obtain ⟨-, e⟩ | e := (by
      by_cases last : j - h < 2 * L - 2
      · exact Or.inl (dm (P := 2 * L - 2) (a := j - h) (q := 0) (k := j - h) hP (by ring) (by omega) last)
      · right; exact (by omega : 2 * L - 2 ≤ j - h) : (((j - h) / (2 * L - 2) = 0 ∧ (j - h) % (2 * L - 2) = j - h) ∨ 2 * L - 2 ≤ j - h))
    · have c : j - h < L := by omega
      simp only [e, F, c, if_true]; congr 1; ring
    · exfalso; omega
  · intro _ j
    have := mir (j - h) 0 ⟨0, by ring⟩
    simp only [this]; congr 2; ring
  · intro _ j
    have := mir (j - h) (2 * L - 2) ⟨1, by ring⟩
    simp only [this]; congr 2; omega
  · intro c; exact absurd c one

/-- the odd modes: `m = 1` odd_symmetric (period 2L), `m = 2` odd_reflect (period 2L-2) -/
theorem oddSymmetric_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (∀ j, S j = 2 * S h - S (2 * h - 1 - j)) ∧ (∀ j, S j = 2 * S (t - 1) - S (2 * t - 1 - j)) := by
  set L := t - h with hLd
  have hP : 0 < 2 * L := by omega
  let d : ℝ := g (t - 1) - g h
  let F : ℤ → ℝ := fun k => if k < L then g (h + k) else 2 * g (t - 1) - g (h + (2 * L - 1 - k))
  have key : ∀ k, 0 ≤ k → k < 2 * L → F k = 2 * g (t - 1) - F (2 * L - 1 - k) := by
    intro k h0 h1
    by_cases c : k < L
    · have c' : ¬ (2 * L - 1 - k < L) := by omega
      have e : h + (2 * L - 1 - (2 * L - 1 - k)) = h + k := by ring
      simp only [F, c, c', if_true, if_false, e]; ring
    · have c' : 2 * L - 1 - k < L := by omega
      simp only [F, c, c', if_true, if_false]
  let S : ℤ → ℝ := fun j => F ((j - h) % (2 * L)) + 2 * ((j - h) / (2 * L) : ℤ) * d
  have inn : ∀ j, h ≤ j → j < t → S j = g j := by
    intro j h1 h2
    obtain ⟨e0, e⟩ := dm (P := 2 * L) (a := j - h) (q := 0) (k := j - h) hP (by ring) (by omega) (by omega)
    have c : j - h < L := by omega
    have e2 : h + (j - h) = j := by ring
    simp only [S, e0, e, F, c, if_true, e2]; simp
  refine ⟨S, inn, ?_, ?_⟩
  · intro j
    rw [inn h le_rfl hL]
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    obtain ⟨a0, a⟩ := dm hP e h0 h1
    obtain ⟨b0, b⟩ := dm (P := 2 * L) (a := 2 * h - 1 - j - h) (q := -q - 1) (k := 2 * L - 1 - k) hP
      (by have : 2 * L * (-q - 1) = -(2 * L * q) - 2 * L := by ring
          rw [this]; omega) (by omega) (by omega)
    simp only [S, a0, a, b0, b, key k h0 h1, d]; push_cast; ring
  · intro j
    rw [inn (t - 1) (by omega) (by omega)]
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    obtain ⟨a0, a⟩ := dm hP e h0 h1
    obtain ⟨b0, b⟩ := dm (P := 2 * L) (a := 2 * t - 1 - j - h) (q := -q) (k := 2 * L - 1 - k) hP
      (by have : 2 * L * (-q) = -(2 * L * q) := by ring
          rw [this]; omega) (by omega) (by omega)
    simp only [S, a0, a, b0, b, key k h0 h1, d]; push_cast; ring

theorem oddReflect_ex (hL : h < t) : ∃ S : ℤ → ℝ, (∀ j, h ≤ j → j < t → S j = g j) ∧
    (t - h > 1 → ∀ j, S j = 2 * S h - S (2 * h - j)) ∧ (t - h > 1 → ∀ j, S j = 2 * S (t - 1) - S (2 * (t - 1) - j)) ∧
    (t - h = 1 → ∀ j, S j = S h) := by
  by_cases one : t - h = 1
  · refine ⟨fun _ => g h, ?_, ?_, ?_, ?_⟩
    · intro j _ _; have : j = h := by omega
      simp [this]
    · intro _ _; simp; ring
    · intro _ _; simp; ring
    · intros; rfl
  set L := t - h with hLd
  have hP : 0 < 2 * L - 2 := by omega
  let d : ℝ := g (t - 1) - g h
  let F : ℤ → ℝ := fun k => if k < L then g (h + k) else 2 * g (t - 1) - g (h + (2 * L - 2 - k))
  have F0 : F 0 = g h := by
    have : (0 : ℤ) < L := by omega
    simp [F, this]
  have key : ∀ k, 0 < k → k < 2 * L - 2 → F k = 2 * g (t - 1) - F (2 * L - 2 - k) := by
    intro k h0 h1
    by_cases c : k < L
    · by_cases c' : 2 * L - 2 - k < L
      · have hk : k = L - 1 := by omega
        have e1 : h + k = t - 1 := by omega
        have e2 : h + (2 * L - 2 - k) = t - 1 := by omega
        simp only [F, c, c', if_true, e1, e2]; ring
      · have e : h + (2 * L - 2 - (2 * L - 2 - k)) = h + k := by ring
        simp only [F, c, c', if_true, if_false, e]; ring
    · have c' : 2 * L - 2 - k < L := by omega
      simp only [F, c, c', if_true, if_false]
  let S : ℤ → ℝ := fun j => F ((j - h) % (2 * L - 2)) + 2 * ((j - h) / (2 * L - 2) : ℤ) * d
  have inn : ∀ j, h ≤ j → j < t → S j = g j := by
    intro j h1 h2
    obtain ⟨e0, e⟩ := dm (P := 2 * L - 2) (a := j - h) (q := 0) (k := j - h) hP (by ring) (by omega) (by omega)
    have c : j - h < L := by omega
    have e2 : h + (j - h) = j := by ring
    simp only [S, e0, e, F, c, if_true, e2]; simp
  refine ⟨S, inn, ?_, ?_, ?_⟩
  · intro _ j
    rw [inn h le_rfl hL]
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    obtain ⟨a0, a⟩ := dm hP e h0 h1
    by_cases z : k = 0
    · obtain ⟨b0, b⟩ := dm (P := 2 * L - 2) (a := 2 * h - j - h) (q := -q) (k := 0) hP
        (by have : (2 * L - 2) * (-q) = -((2 * L - 2) * q) := by ring
            rw [this]; omega) (by omega) (by omega)
      simp only [S, a0, a, b0, b, z, F0, d]; push_cast; ring
    · obtain ⟨b0, b⟩ := dm (P := 2 * L - 2) (a := 2 * h - j - h) (q := -q - 1) (k := 2 * L - 2 - k) hP
        (by have : (2 * L - 2) * (-q - 1) = -((2 * L - 2) * q) - (2 * L - 2) := by ring
            rw [this]; omega) (by omega) (by omega)
      simp only [S, a0, a, b0, b, key k (by omega) h1, d]; push_cast; ring
  · intro _ j
    rw [inn (t - 1) (by omega) (by omega)]
    obtain ⟨q, k, e, h0, h1⟩ := split hP (j - h)
    obtain ⟨a0, a⟩ := dm hP e h0 h1
    by_cases z : k = 0
    · obtain ⟨b0, b⟩ := dm (P := 2 * L - 2) (a := 2 * (t - 1) - j - h) (q := 1 - q) (k := 0) hP
        (by have : (2 * L - 2) * (1 - q) = (2 * L - 2) - (2 * L - 2) * q := by ring
            rw [this]; omega) (by omega) (by omega)
      simp only [S, a0, a, b0, b, z, F0, d]; push_cast; ring
    · obtain ⟨b0, b⟩ := dm (P := 2 * L - 2) (a := 2 * (t - 1) - j - h) (q := -q) (k := 2 * L - 2 - k) hP
        (by have : (2 * L - 2) * (-q) = -((2 * L - 2) * q) := by ring
            rw [this]; omega) (by omega) (by omega)
      simp only [S, a0, a, b0, b, key k (by omega) h1, d]; push_cast; ring
  · intro c; exact absurd c one

/-- C15: the weighted variance is non-negative for non-negative weights of sum 1 -/
theorem variance_nonneg {ι : Type*} (s : Finset ι) (w x : ι → ℝ) (hw : ∀ i ∈ s, 0 ≤ w i) (h1 : ∑ i ∈ s, w i = 1) :
    0 ≤ ∑ i ∈ s, w i * (x i * x i) - (∑ i ∈ s, w i * x i) * (∑ i ∈ s, w i * x i) := by
  set m := ∑ i ∈ s, w i * x i with hm
  have e : ∑ i ∈ s, w i * ((x i - m) * (x i - m)) = ∑ i ∈ s, w i * (x i * x i) - m * m := by
    have : ∀ i ∈ s, w i * ((x i - m) * (x i - m)) = w i * (x i * x i) - (2 * m) * (w i * x i) + (m * m) * w i := by
      intros; ring
    rw [Finset.sum_congr rfl this, Finset.sum_add_distrib, Finset.sum_sub_distrib, ← Finset.mul_sum, ← Finset.mul_sum, h1, ← hm]; ring
  rw [← e]
  exact Finset.sum_nonneg fun i hi => mul_nonneg (hw i hi) (mul_self_nonneg _)

end Ext
