import Mathlib.Analysis.InnerProductSpace.Basic
import Mathlib.Analysis.Convex.SpecificFunctions.Basic
import Mathlib.Analysis.Convex.Jensen
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp

/-!
A conjugate update never decreases the bound. The hypotheses are what the contracts of P26 (and P03,
P05) prove of the code: the form of the bound, of the divergence, of the statistics and of the step.

V : natural parameters of the updated group; e : expected statistics; A : log-normaliser.
-/

open Finset
open scoped InnerProductSpace

variable {V : Type} [NormedAddCommGroup V] [InnerProductSpace ℝ V]

/-- divergence between two members of an exponential family -/
def KL (A : V → ℝ) (e : V → V) (a b : V) : ℝ := A b - A a - ⟪b - a, e a⟫_ℝ

/-- data term D, posterior a, prior p -/
def bound (A : V → ℝ) (e : V → V) (D : V → ℝ) (p a : V) : ℝ := D (e a) - KL A e a p

variable {A : V → ℝ} {e : V → V} {D : V → ℝ} {p a b S : V} {r : ℝ}

/-- the gain of a step is the gap of the data term to its tangent and two divergences -/
theorem gain (hb : b = a + r • (p + S - a)) :
    r * (bound A e D p b - bound A e D p a)
      = r * (D (e b) - D (e a) - ⟪S, e b - e a⟫_ℝ) + KL A e a b + (1 - r) * KL A e b a := by
  have h1 : ⟪b - a, e b⟫_ℝ = r * ⟪p + S - a, e b⟫_ℝ := by
    rw [hb, add_sub_cancel_left, real_inner_smul_left]
  have h2 : ⟪b - a, e a⟫_ℝ = r * ⟪p + S - a, e a⟫_ℝ := by
    rw [hb, add_sub_cancel_left, real_inner_smul_left]
  simp only [bound, KL]
  simp only [inner_sub_left, inner_add_left, inner_sub_right] at *
  linear_combination (r - 1) * h1 + h2 - r * h1 + 0 * h2

/-- **ascent**: with a data term above its tangent and non-negative divergences, a step of a rate
in (0, 1] never decreases the bound -/
theorem ascent (hb : b = a + r • (p + S - a)) (h0 : 0 < r) (h1 : r ≤ 1)
    (hD : D (e a) + ⟪S, e b - e a⟫_ℝ ≤ D (e b)) (k1 : 0 ≤ KL A e a b)
    (k : 0 ≤ KL A e b a) :
    bound A e D p a ≤ bound A e D p b := by
  have g := gain (A := A) (e := e) (D := D) hb
  have k2 := mul_nonneg (sub_nonneg.2 h1) k
  have k3 := mul_nonneg h0.le (sub_nonneg.2 hD)
  have : 0 ≤ r * (bound A e D p b - bound A e D p a) := by
    rw [g]; nlinarith
  have := nonneg_of_mul_nonneg_right this h0
  linarith

/-- **single distribution**: a data term linear in the expected statistics is its own tangent -/
theorem linear_tangent (c : ℝ) (hD : ∀ u, D u = c + ⟪S, u⟫_ℝ) (u v : V) :
    D u + ⟪S, v - u⟫_ℝ ≤ D v := by
  rw [hD, hD, inner_sub_right]; linarith

/-- log-sum-exp is above its tangent -/
lemma lse_tangent {K : Type} [Fintype K] [Nonempty K] (x y : K → ℝ) :
    Real.log (∑ k, Real.exp (x k)) +
      ∑ k, Real.exp (x k) / (∑ j, Real.exp (x j)) * (y k - x k) ≤ Real.log (∑ k, Real.exp (y k)) := by
  set Z := ∑ k, Real.exp (x k) with hZ
  have hZp : 0 < Z := Finset.sum_pos (fun k _ => Real.exp_pos _) Finset.univ_nonempty
  have hj := convexOn_exp.map_sum_le (t := Finset.univ) (w := fun k => Real.exp (x k) / Z)
    (p := fun k => y k - x k) (fun k _ => (div_pos (Real.exp_pos _) hZp).le)
    (by rw [← Finset.sum_div]; exact div_self hZp.ne') (fun k _ => Set.mem_univ _)
  simp only [smul_eq_mul] at hj
  have e1 : ∑ k, Real.exp (x k) / Z * Real.exp (y k - x k) = (∑ k, Real.exp (y k)) / Z := by
    rw [Finset.sum_div]
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [Real.exp_sub]
    field_simp
  rw [e1, le_div_iff₀ hZp] at hj
  have := Real.log_le_log (mul_pos (Real.exp_pos _) hZp) hj
  rw [Real.log_mul (Real.exp_pos _).ne' hZp.ne', Real.log_exp] at this
  linarith

/-- **mixture**: frames n, components k; the log-probabilities are affine in the expected
statistics, S is the sum of their slopes weighted by the responsibilities -/
theorem mixture_tangent {N K : Type} [Fintype N] [Fintype K] [Nonempty K]
    (c : N → K → ℝ) (T : N → K → V) (x : V → N → K → ℝ)
    (hx : ∀ u n k, x u n k = c n k + ⟪T n k, u⟫_ℝ)
    (hD : ∀ u, D u = ∑ n, Real.log (∑ k, Real.exp (x u n k))) (u v : V)
    (hS : S = ∑ n, ∑ k, (Real.exp (x u n k) / ∑ j, Real.exp (x u n j)) • T n k) :
    D u + ⟪S, v - u⟫_ℝ ≤ D v := by
  have hi : ⟪S, v - u⟫_ℝ = ∑ n, ∑ k, Real.exp (x u n k) / (∑ j, Real.exp (x u n j)) *
      (x v n k - x u n k) := by
    rw [hS, sum_inner]
    refine Finset.sum_congr rfl fun n _ => ?_
    rw [sum_inner]
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [real_inner_smul_left, hx, hx, inner_sub_right]
    ring
  rw [hi, hD, hD, ← Finset.sum_add_distrib]
  exact Finset.sum_le_sum fun n _ => lse_tangent _ _

#print axioms gain
#print axioms ascent
#print axioms linear_tangent
#print axioms mixture_tangent
