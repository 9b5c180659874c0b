import Mathlib.Analysis.MeanInequalities
import Mathlib.Analysis.Convex.SpecificFunctions.Basic

open Finset Real

/-- Exchange of the two finite sums in the logarithmic derivative of a
posynomial: summing over variables the derivative with respect to each, times
the direction, is summing over terms. -/
theorem sum_exchange {T V : Type*} (ts : Finset T) (vs : Finset V)
    (cm : T → ℝ) (x : T → V → ℝ) (d : V → ℝ) :
    ∑ k ∈ vs, (∑ i ∈ ts, cm i * x i k) * d k
      = ∑ i ∈ ts, cm i * ∑ k ∈ vs, x i k * d k := by
  simp only [Finset.sum_mul, Finset.mul_sum]
  rw [Finset.sum_comm]
  simp only [mul_assoc]

/-- A posynomial (terms of value `p i > 0` at the point, log-gradient `a i` in
the direction considered) is nowhere below the monomial with its value and
logarithmic gradient at the point. -/
theorem mono_approx_le {T : Type*} (ts : Finset T) (p a : T → ℝ)
    (hp : ∀ i ∈ ts, 0 < p i) (hne : ts.Nonempty) :
    (∑ i ∈ ts, p i) * exp ((∑ i ∈ ts, p i * a i) / ∑ i ∈ ts, p i)
      ≤ ∑ i ∈ ts, p i * exp (a i) := by
  have hS : 0 < ∑ i ∈ ts, p i := Finset.sum_pos hp hne
  have h := convexOn_exp.map_sum_le (t := ts)
    (w := fun i => p i / ∑ j ∈ ts, p j) (p := a)
    (fun i hi => le_of_lt (div_pos (hp i hi) hS))
    (by rw [← Finset.sum_div]; exact div_self (ne_of_gt hS))
    (fun i _ => Set.mem_univ _)
  simp only [smul_eq_mul] at h
  have e1 : ∑ i ∈ ts, p i / (∑ j ∈ ts, p j) * a i
      = (∑ i ∈ ts, p i * a i) / ∑ i ∈ ts, p i := by
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl (fun i _ => by ring)
  have e2 : ∑ i ∈ ts, p i / (∑ j ∈ ts, p j) * exp (a i)
      = (∑ i ∈ ts, p i * exp (a i)) / ∑ i ∈ ts, p i := by
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl (fun i _ => by ring)
  rw [e1, e2, le_div_iff₀ hS] at h
  linarith [h]
