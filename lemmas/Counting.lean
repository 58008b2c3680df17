import Mathlib.Data.Nat.Count
import Mathlib.Data.Nat.Prime.Basic
import Mathlib.Algebra.BigOperators.Fin
import Mathlib.Tactic.Ring
import Mathlib.Algebra.BigOperators.Intervals

/-- definitions used by C06: messages of window [o,e) mapped to g among the first t -/
def cntw (M : ℕ → ℕ) (o e g t : ℕ) : ℕ := Nat.count (fun i => (o ≤ i ∧ i < e) ∧ M i = g) t

theorem count_step (M : ℕ → ℕ) (o e g t : ℕ) :
    cntw M o e g (t + 1) = cntw M o e g t + if (o ≤ t ∧ t < e) ∧ M t = g then 1 else 0 := by
  unfold cntw; exact Nat.count_succ _ t

theorem count_le (M : ℕ → ℕ) (o e g t : ℕ) : cntw M o e g t ≤ t := Nat.count_le _

theorem count_mono (M : ℕ → ℕ) (o e g : ℕ) {a b : ℕ} (h : a ≤ b) : cntw M o e g a ≤ cntw M o e g b :=
  Nat.count_monotone _ h

/-- counting inside the window is counting the own messages -/
theorem count_window (M : ℕ → ℕ) (o own g k : ℕ) (h : k ≤ own) :
    cntw M o (o + own) g (o + k) = Nat.count (fun i => M (o + i) = g) k := by
  unfold cntw
  induction k with
  | zero =>
    simp only [Nat.add_zero, Nat.count_zero]
    rw [Nat.count_eq_card_filter_range, Finset.card_eq_zero, Finset.filter_eq_empty_iff]
    intro i hi; rw [Finset.mem_range] at hi; omega
  | succ k ih =>
    rw [← Nat.add_assoc, Nat.count_succ, ih (by omega), Nat.count_succ]
    congr 1
    have : (o ≤ o + k ∧ o + k < o + own) := by omega
    simp [this]

theorem count_after (M : ℕ → ℕ) (o own g t : ℕ) (h : o + own ≤ t) :
    cntw M o (o + own) g t = Nat.count (fun i => M (o + i) = g) own := by
  induction t, h using Nat.le_induction with
  | base => exact count_window M o own g own (le_refl _)
  | succ t ht ih =>
    rw [count_step, ih]
    have : ¬ ((o ≤ t ∧ t < o + own) ∧ M t = g) := by omega
    simp [this]

theorem count_strict (T : ℕ → ℕ) {k t : ℕ} (h : k < t) :
    Nat.count (fun i => T i = T k) k < Nat.count (fun i => T i = T k) t :=
  Nat.count_strict_mono (p := fun i => T i = T k) rfl h

/-- the c-th own message for g -/
theorem count_nth (T : ℕ → ℕ) (g c own : ℕ) (h : c < Nat.count (fun i => T i = g) own) :
    ∃ k < own, T k = g ∧ Nat.count (fun i => T i = g) k = c := by
  induction own with
  | zero => simp at h
  | succ n ih =>
    by_cases h2 : c < Nat.count (fun i => T i = g) n
    · obtain ⟨k, hk, h3⟩ := ih h2
      exact ⟨k, by omega, h3⟩
    · rw [Nat.count_succ] at h
      by_cases h4 : T n = g
      · simp only [h4, if_true] at h
        exact ⟨n, by omega, h4, by omega⟩
      · simp only [h4, if_false] at h; omega

/-- what the servers below T send to g, in windows laid side by side, is what the positions below their end map to g -/
theorem count_sources (M O : ℕ → ℕ) (g S tot : ℕ) (h0 : O 0 = 0) (hm : ∀ q < S, O q ≤ O (q + 1)) (ht : ∀ q ≤ S, O q ≤ tot) :
    ∀ T ≤ S, (∑ q ∈ Finset.range T, cntw M (O q) (O (q + 1)) g tot) = Nat.count (fun i => M i = g) (O T) := by
  intro T
  induction T with
  | zero => intro _; simp [h0]
  | succ T ih =>
    intro hT
    rw [Finset.sum_range_succ, ih (by omega)]
    have h1 := hm T (by omega)
    obtain ⟨d, hd⟩ := Nat.exists_eq_add_of_le h1
    have h2 := ht (T + 1) hT
    rw [hd, count_after M (O T) d g tot (by omega), Nat.count_add]

/-- a rearrangement maps as many positions to g as before -/
theorem count_perm (n g : ℕ) (B M : ℕ → ℕ) (σ : Equiv.Perm (Fin n)) (h : ∀ k : Fin n, M k = B (σ k)) :
    Nat.count (fun i => M i = g) n = Nat.count (fun i => B i = g) n := by
  have key : ∀ F : ℕ → ℕ, Nat.count (fun i => F i = g) n = ∑ k : Fin n, (if F k = g then 1 else 0) := by
    intro F
    rw [Nat.count_eq_card_filter_range, Finset.card_filter, Finset.sum_range]
  rw [key M, key B, ← Equiv.sum_comp σ (fun k : Fin n => if B k = g then 1 else 0)]
  simp only [h]

theorem slices_sum (S tot : ℕ) (h : 0 < S) :
    (∑ q ∈ Finset.range S, (if q = S - 1 then tot - (S - 1) * (tot / S) else tot / S)) = tot := by
  obtain ⟨n, rfl⟩ : ∃ n, S = n + 1 := ⟨S - 1, by omega⟩
  rw [Finset.sum_range_succ]
  have h1 : ∑ q ∈ Finset.range n, (if q = n + 1 - 1 then tot - (n + 1 - 1) * (tot / (n + 1)) else tot / (n + 1)) = n * (tot / (n + 1)) := by
    rw [Finset.sum_congr rfl (g := fun _ => tot / (n + 1))]
    · simp
    · intro q hq; rw [Finset.mem_range] at hq; rw [if_neg (by omega)]
  rw [h1, if_pos (by omega)]
  have h2 : (n + 1) * (tot / (n + 1)) ≤ tot := Nat.mul_div_le tot (n + 1)
  have h3 : n * (tot / (n + 1)) ≤ (n + 1) * (tot / (n + 1)) := Nat.mul_le_mul_right _ (by omega)
  simp only [Nat.add_sub_cancel]
  omega

/-- before the shuffle exactly the slice of g is mapped to g -/
theorem owner_count (S tot g : ℕ) (h : g < S) (B : ℕ → ℕ)
    (hB : ∀ k < tot, ∀ q < S, (q * (tot / S) ≤ k ∧ (q = S - 1 ∨ k < q * (tot / S) + tot / S)) → B k = q) :
    Nat.count (fun i => B i = g) tot = if g = S - 1 then tot - (S - 1) * (tot / S) else tot / S := by
  have hper : S * (tot / S) ≤ tot := Nat.mul_div_le tot S
  generalize hp : tot / S = per at *
  obtain ⟨n, rfl⟩ : ∃ n, S = n + 1 := ⟨S - 1, by omega⟩
  simp only [Nat.add_sub_cancel] at *
  have hS : (n + 1) * per = n * per + per := by ring
  have hn : ∀ q < n, q * per + per ≤ n * per := by
    intro q hq
    have : (q + 1) * per ≤ n * per := Nat.mul_le_mul_right _ hq
    rw [Nat.add_mul, Nat.one_mul] at this; exact this
  have ex : ∀ k < tot, ∃ q < n + 1, q * per ≤ k ∧ (q = n ∨ k < q * per + per) := by
    intro k hk
    by_cases h1 : n * per ≤ k
    · exact ⟨n, by omega, h1, Or.inl rfl⟩
    · have hpos : 0 < per := by rcases Nat.eq_zero_or_pos per with h0 | h0; · subst h0; omega
                                · exact h0
      have hk2 : k < n * per := by omega
      refine ⟨k / per, ?_, Nat.div_mul_le_self k per, Or.inr ?_⟩
      · have := (Nat.div_lt_iff_lt_mul hpos).2 hk2; omega
      · have := Nat.lt_div_mul_add (a := k) hpos; exact this
  have dis : ∀ k < tot, (B k = g ↔ (g * per ≤ k ∧ (g = n ∨ k < g * per + per))) := by
    intro k hk
    constructor
    · intro hb
      obtain ⟨q, hq, h1⟩ := ex k hk
      have := hB k hk q hq h1
      rw [hb] at this; subst this; exact h1
    · intro h1; exact hB k hk g h h1
  have hlen : g * per + (if g = n then tot - n * per else per) ≤ tot := by
    split_ifs with hg
    · subst hg; omega
    · have := hn g (by omega); omega
  generalize hown : (if g = n then tot - n * per else per) = own at *
  have h1 := count_after (fun _ => g) (g * per) own g tot hlen
  have h2 : Nat.count (fun i => (fun _ : ℕ => g) (g * per + i) = g) own = own := by
    have : (fun i => (fun _ : ℕ => g) (g * per + i) = g) = fun _ : ℕ => True := by funext i; simp
    simp [Nat.count_eq_card_filter_range]
  rw [h2] at h1
  rw [← h1]; unfold cntw
  rw [Nat.count_eq_card_filter_range, Nat.count_eq_card_filter_range]
  congr 1
  apply Finset.filter_congr
  intro k hk; rw [Finset.mem_range] at hk
  rw [dis k hk]
  constructor
  · rintro ⟨h3, h4⟩
    refine ⟨⟨h3, ?_⟩, rfl⟩
    split_ifs at hown with hg
    · have : g * per ≤ tot := by omega
      subst hg; omega
    · rcases h4 with h4 | h4
      · exact absurd h4 hg
      · omega
  · rintro ⟨⟨h3, h4⟩, _⟩
    refine ⟨h3, ?_⟩
    split_ifs at hown with hg
    · exact Or.inl hg
    · exact Or.inr (by omega)
