import Mathlib.Algebra.BigOperators.Fin
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Fintype.BigOperators
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Abel

/-!
The recursions which the contracts of P08 and P09 prove of the code compute sums, respectively
maxima, over all the paths of the graph: for any number of states and of frames.

I, F, A, L : weights of the starts, ends, arcs and frames; a path of n + 1 frames is any
function from the frames to the states.
-/

open Finset

namespace Sum
variable {S R : Type} [Fintype S] [DecidableEq S] [CommSemiring R]

/-- weight of a path without its end -/
def start (I : S → R) (A : S → S → R) (L : ℕ → S → R) (n : ℕ) (p : Fin (n + 1) → S) : R :=
  I (p 0) * (∏ t : Fin (n + 1), L t (p t)) * ∏ t : Fin n, A (p t.castSucc) (p t.succ)

def weight (I F : S → R) (A : S → S → R) (L : ℕ → S → R) (n : ℕ) (p : Fin (n + 1) → S) : R :=
  start I A L n p * F (p (Fin.last n))

/-- the forward recursion -/
def Forward (I : S → R) (A : S → S → R) (L a : ℕ → S → R) (n : ℕ) : Prop :=
  (∀ s, a 0 s = L 0 s * I s) ∧ ∀ t < n, ∀ s, a (t + 1) s = L (t + 1) s * ∑ i, a t i * A i s

/-- the backward recursion -/
def Backward (F : S → R) (A : S → S → R) (L b : ℕ → S → R) (n : ℕ) : Prop :=
  (∀ s, b n s = F s) ∧ ∀ t < n, ∀ s, b t s = ∑ j, A s j * L (t + 1) j * b (t + 1) j

variable {I F : S → R} {A : S → S → R} {L a b : ℕ → S → R} {n : ℕ}

lemma start_snoc (t : ℕ) (q : Fin (t + 1) → S) (j : S) :
    start I A L (t + 1) (Fin.snoc (α := fun _ => S) q j)
      = start I A L t q * (A (q (Fin.last t)) j * L (t + 1) j) := by
  have h0 : (Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) 0 = q 0 := by
    have : (0 : Fin (t + 2)) = Fin.castSucc 0 := rfl
    rw [this, Fin.snoc_castSucc]
  have hs : ∀ i : Fin t, (Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) i.castSucc.succ
      = q i.succ := by
    intro i
    rw [Fin.succ_castSucc, Fin.snoc_castSucc]
  have hl : (Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) (Fin.last t).succ = j := by
    rw [Fin.succ_last, Fin.snoc_last]
  have e1 : ∏ i : Fin (t + 2), L i ((Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) i)
      = (∏ i : Fin (t + 1), L i (q i)) * L (t + 1) j := by
    rw [Fin.prod_univ_castSucc]
    simp only [Fin.snoc_castSucc, Fin.snoc_last, Fin.val_castSucc, Fin.val_last]
  have e2 : ∏ i : Fin (t + 1), A ((Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) i.castSucc)
      ((Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) i.succ)
      = (∏ i : Fin t, A (q i.castSucc) (q i.succ)) * A (q (Fin.last t)) j := by
    rw [Fin.prod_univ_castSucc]
    simp only [Fin.snoc_castSucc, hs, hl]
  unfold start
  rw [e1, e2, h0]
  ring

omit [DecidableEq S] in
lemma sum_snoc (t : ℕ) (f : (Fin (t + 2) → S) → R) :
    ∑ p, f p = ∑ j, ∑ q : Fin (t + 1) → S, f (Fin.snoc (α := fun _ => S) q j) := by
  rw [← (Fin.snocEquiv (fun _ : Fin (t + 2) => S)).sum_comp, Fintype.sum_prod_type]
  rfl

/-- the forward variable is the sum over the paths that reach a state -/
lemma forward_sum (h : Forward I A L a n) : ∀ t ≤ n, ∀ s,
    a t s = ∑ q : Fin (t + 1) → S, if q (Fin.last t) = s then start I A L t q else 0 := by
  intro t
  induction t with
  | zero =>
    intro _ s
    rw [h.1 s, ← (Equiv.funUnique (Fin 1) S).symm.sum_comp]
    simp [start, mul_comm]
  | succ t ih =>
    intro ht s
    rw [h.2 t ht s, sum_snoc]
    have e : ∀ j, (∑ q : Fin (t + 1) → S,
        if (Fin.snoc (α := fun _ => S) q j : Fin (t + 2) → S) (Fin.last (t + 1)) = s
        then start I A L (t + 1) (Fin.snoc (α := fun _ => S) q j) else 0)
        = if j = s then ∑ q : Fin (t + 1) → S, start I A L t q *
            (A (q (Fin.last t)) s * L (t + 1) s) else 0 := by
      intro j
      split_ifs with hj
      · subst hj
        simp [Fin.snoc_last, start_snoc]
      · simp [Fin.snoc_last, hj]
    rw [Finset.sum_congr rfl (fun j _ => e j)]
    simp only [Finset.sum_ite_eq', Finset.mem_univ, if_true]
    have : ∀ i, a t i * A i s = ∑ q : Fin (t + 1) → S,
        if q (Fin.last t) = i then start I A L t q * A (q (Fin.last t)) s else 0 := by
      intro i
      rw [ih (Nat.le_of_succ_le ht) i, Finset.sum_mul]
      refine Finset.sum_congr rfl fun q _ => ?_
      split_ifs with hq
      · rw [hq]
      · simp
    simp only [this]
    rw [Finset.sum_comm]
    simp only [Finset.sum_ite_eq, Finset.mem_univ, if_true, Finset.mul_sum]
    refine Finset.sum_congr rfl fun q _ => ?_
    ring

/-- the ends of the paths can be summed out, down to any frame -/
lemma backward_sum (h : Backward F A L b n) (t : ℕ) (g : (Fin (t + 1) → S) → R) :
    ∀ k, (hk : t + k ≤ n) →
      ∑ p : Fin (t + k + 1) → S, start I A L (t + k) p * b (t + k) (p (Fin.last (t + k))) *
        g (fun i => p (Fin.castLE (by omega) i))
      = ∑ q : Fin (t + 1) → S, start I A L t q * b t (q (Fin.last t)) * g q := by
  intro k
  induction k with
  | zero => intro _; rfl
  | succ k ih =>
    intro hk
    rw [← ih (by omega)]
    have := sum_snoc (S := S) (t + k) (fun p => start I A L (t + (k + 1)) p *
      b (t + (k + 1)) (p (Fin.last (t + (k + 1)))) * g (fun i => p (Fin.castLE (by omega) i)))
    refine Eq.trans this ?_
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun q _ => ?_
    have hg : ∀ j, (fun i : Fin (t + 1) => (Fin.snoc (α := fun _ => S) q j : Fin (t + k + 2) → S)
        (Fin.castLE (by omega) i)) = fun i => q (Fin.castLE (by omega) i) := by
      intro j
      funext i
      have : (Fin.castLE (by omega) i : Fin (t + k + 2))
          = Fin.castSucc (Fin.castLE (by omega) i : Fin (t + k + 1)) := rfl
      rw [this, Fin.snoc_castSucc]
    rw [h.2 (t + k) (by omega), Finset.mul_sum, Finset.sum_mul]
    refine Finset.sum_congr rfl fun j _ => ?_
    have hl : (Fin.snoc (α := fun _ => S) q j : Fin (t + k + 2) → S)
        (Fin.last (t + (k + 1))) = j := Fin.snoc_last (α := fun _ => S) j q
    rw [hg j, hl]
    have := start_snoc (I := I) (A := A) (L := L) (t + k) q j
    have e : start I A L (t + (k + 1)) (Fin.snoc (α := fun _ => S) q j : Fin (t + k + 2) → S)
      = start I A L (t + k) q * (A (q (Fin.last (t + k))) j * L (t + k + 1) j) := this
    rw [e]
    have e2 : b (t + (k + 1)) j = b (t + k + 1) j := rfl
    rw [e2]
    ring

lemma weight_sum (h : Backward F A L b n) (t : ℕ) (ht : t ≤ n) (g : (Fin (t + 1) → S) → R) :
    ∑ p : Fin (n + 1) → S, weight I F A L n p * g (fun i => p (Fin.castLE (by omega) i))
      = ∑ q : Fin (t + 1) → S, start I A L t q * b t (q (Fin.last t)) * g q := by
  obtain ⟨k, rfl⟩ := Nat.exists_eq_add_of_le ht
  rw [← backward_sum (I := I) h t g k le_rfl]
  refine Finset.sum_congr rfl fun p _ => ?_
  rw [weight, h.1]

/-- **states**: forward times backward is the sum of the weights of the paths through a state -/
theorem state (hf : Forward I A L a n) (hb : Backward F A L b n) (t : ℕ) (ht : t ≤ n) (s : S) :
    a t s * b t s
      = ∑ p : Fin (n + 1) → S, if p ⟨t, by omega⟩ = s then weight I F A L n p else 0 := by
  have := weight_sum (I := I) hb t ht (fun q => if q (Fin.last t) = s then 1 else 0)
  have e : ∀ p : Fin (n + 1) → S, (if p ⟨t, by omega⟩ = s then weight I F A L n p else 0)
      = weight I F A L n p *
        (if (fun i : Fin (t + 1) => p (Fin.castLE (by omega) i)) (Fin.last t) = s then 1 else 0) := by
    intro p
    have : (Fin.castLE (by omega) (Fin.last t) : Fin (n + 1)) = ⟨t, by omega⟩ := rfl
    simp only [this]
    split_ifs <;> simp
  rw [Finset.sum_congr rfl (fun p _ => e p), this, forward_sum hf t ht s, Finset.sum_mul]
  refine Finset.sum_congr rfl fun q _ => ?_
  split_ifs with hq
  · rw [hq]; ring
  · simp

/-- **transitions**: the same for the paths through an arc -/
theorem transition (hf : Forward I A L a n) (hb : Backward F A L b n) (t : ℕ) (ht : t + 1 ≤ n)
    (i j : S) :
    a t i * A i j * L (t + 1) j * b (t + 1) j
      = ∑ p : Fin (n + 1) → S, if p ⟨t, by omega⟩ = i ∧ p ⟨t + 1, by omega⟩ = j
          then weight I F A L n p else 0 := by
  have := weight_sum (I := I) hb (t + 1) ht (fun q =>
    if q (Fin.castSucc (Fin.last t)) = i ∧ q (Fin.last (t + 1)) = j then 1 else 0)
  have e : ∀ p : Fin (n + 1) → S, (if p ⟨t, by omega⟩ = i ∧ p ⟨t + 1, by omega⟩ = j
        then weight I F A L n p else 0)
      = weight I F A L n p * (if (fun i : Fin (t + 2) => p (Fin.castLE (by omega) i))
          (Fin.castSucc (Fin.last t)) = i ∧ (fun i : Fin (t + 2) => p (Fin.castLE (by omega) i))
          (Fin.last (t + 1)) = j then 1 else 0) := by
    intro p
    have e1 : (Fin.castLE (by omega) (Fin.castSucc (Fin.last t)) : Fin (n + 1)) = ⟨t, by omega⟩ := rfl
    have e2 : (Fin.castLE (by omega) (Fin.last (t + 1)) : Fin (n + 1)) = ⟨t + 1, by omega⟩ := rfl
    simp only [e1, e2]
    split_ifs <;> simp
  rw [Finset.sum_congr rfl (fun p _ => e p), this, sum_snoc]
  have inner : ∀ k : S, (∑ q : Fin (t + 1) → S,
      start I A L (t + 1) (Fin.snoc (α := fun _ => S) q k) * b (t + 1)
        ((Fin.snoc (α := fun _ => S) q k : Fin (t + 2) → S) (Fin.last (t + 1))) *
      (if (Fin.snoc (α := fun _ => S) q k : Fin (t + 2) → S) (Fin.castSucc (Fin.last t)) = i ∧
        (Fin.snoc (α := fun _ => S) q k : Fin (t + 2) → S) (Fin.last (t + 1)) = j then 1 else 0))
      = if k = j then a t i * A i j * L (t + 1) j * b (t + 1) j else 0 := by
    intro k
    simp only [Fin.snoc_last, Fin.snoc_castSucc, start_snoc]
    split_ifs with hk
    · subst hk
      rw [forward_sum hf t (by omega) i, Finset.sum_mul, Finset.sum_mul, Finset.sum_mul]
      refine Finset.sum_congr rfl fun q _ => ?_
      by_cases hq : q (Fin.last t) = i
      · simp only [hq, and_self, if_true]; ring
      · simp [hq]
    · simp [hk]
  rw [Finset.sum_congr rfl (fun k _ => inner k)]
  simp

/-- **normaliser**: at every frame the products sum to the weight of all the paths -/
theorem normaliser (hf : Forward I A L a n) (hb : Backward F A L b n) (t : ℕ) (ht : t ≤ n) :
    ∑ s, a t s * b t s = ∑ p : Fin (n + 1) → S, weight I F A L n p := by
  simp only [state hf hb t ht]
  rw [Finset.sum_comm]
  simp
end Sum

namespace Max
variable {S M : Type} [AddCommMonoid M] [LinearOrder M] [IsOrderedAddMonoid M]

def start (I : S → M) (A : S → S → M) (L : ℕ → S → M) (n : ℕ) (p : ℕ → S) : M :=
  I (p 0) + ∑ t ∈ range (n + 1), L t (p t) + ∑ t ∈ range n, A (p t) (p (t + 1))

/-- score of a path -/
def score (I F : S → M) (A : S → S → M) (L : ℕ → S → M) (n : ℕ) (p : ℕ → S) : M :=
  start I A L n p + F (p n)

/-- o: best score of the paths that reach a state, k: the state the best one comes from -/
def Recursion (I : S → M) (A : S → S → M) (L o : ℕ → S → M) (k : ℕ → S → S) (n : ℕ) : Prop :=
  (∀ s, o 0 s = L 0 s + I s) ∧ ∀ t < n, ∀ s,
    o (t + 1) s = L (t + 1) s + (o t (k (t + 1) s) + A (k (t + 1) s) s) ∧
    ∀ i, o t i + A i s ≤ o t (k (t + 1) s) + A (k (t + 1) s) s

/-- p: the path followed back from the best end -/
def Backtrack (F : S → M) (o : ℕ → S → M) (k : ℕ → S → S) (n : ℕ) (p : ℕ → S) : Prop :=
  (∀ s, o n s + F s ≤ o n (p n) + F (p n)) ∧ ∀ t < n, p t = k (t + 1) (p (t + 1))

variable {I F : S → M} {A : S → S → M} {L o : ℕ → S → M} {k : ℕ → S → S} {n : ℕ} {p : ℕ → S}

lemma start_succ (t : ℕ) (q : ℕ → S) : start I A L (t + 1) q
    = L (t + 1) (q (t + 1)) + (start I A L t q + A (q t) (q (t + 1))) := by
  unfold start
  rw [sum_range_succ (fun x => L x (q x)) (t + 1), sum_range_succ (fun x => A (q x) (q (x + 1))) t]
  abel

lemma upper (h : Recursion I A L o k n) (q : ℕ → S) :
    ∀ t ≤ n, start I A L t q ≤ o t (q t) := by
  intro t
  induction t with
  | zero => intro _; rw [h.1]; simp [start, add_comm]
  | succ t ih =>
    intro ht
    rw [start_succ, (h.2 t ht _).1]
    exact add_le_add_right (le_trans (add_le_add_left (ih (Nat.le_of_succ_le ht)) _)
      ((h.2 t ht _).2 _)) _

lemma reached (h : Recursion I A L o k n) (hp : ∀ t < n, p t = k (t + 1) (p (t + 1))) :
    ∀ t ≤ n, start I A L t p = o t (p t) := by
  intro t
  induction t with
  | zero => intro _; rw [h.1]; simp [start, add_comm]
  | succ t ih =>
    intro ht
    rw [start_succ, (h.2 t ht _).1, ih (Nat.le_of_succ_le ht), ← hp t ht]

/-- **best path**: no path scores better than the one followed back -/
theorem best (h : Recursion I A L o k n) (hp : Backtrack F o k n p) (q : ℕ → S) :
    score I F A L n q ≤ score I F A L n p := by
  unfold score
  rw [reached h hp.2 n le_rfl]
  exact le_trans (add_le_add_left (upper h q n le_rfl) _) (hp.1 _)
end Max

#print axioms Sum.state
#print axioms Sum.transition
#print axioms Sum.normaliser
#print axioms Max.best
