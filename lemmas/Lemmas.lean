import Mathlib.Data.Nat.Prime.Basic
import Mathlib.Data.Int.ModEq
import Mathlib.Data.Fintype.EquivFin

theorem noDiv : ∀ a < 216, ∀ b < 216, 2 ≤ 216*a+b → 2147483647 % (216*a+b) ≠ 0 := by decide +kernel

theorem isPrime : Nat.Prime 2147483647 := by
  rw [Nat.prime_def_le_sqrt]
  refine ⟨by decide, fun m hm hs hd => ?_⟩
  have hlt : m < 46656 := by
    have : m * m ≤ 2147483647 := Nat.le_sqrt.1 hs
    by_contra hc
    have hc : 46656 ≤ m := by omega
    have := Nat.mul_le_mul hc hc
    omega
  have h := noDiv (m / 216) (by omega) (m % 216) (by omega)
  rw [Nat.div_add_mod m 216] at h
  exact h hm (Nat.mod_eq_zero_of_dvd hd)

/-- 2^31-1 has no common factor with 1..2^31-2 -/
theorem prime_gcd (y : ℕ) (h1 : 1 ≤ y) (h2 : y < 2147483647) : Nat.gcd y 2147483647 = 1 := by
  have hc : Nat.Coprime 2147483647 y := (Nat.Prime.coprime_iff_not_dvd isPrime).2 (fun h => by
    have := Nat.le_of_dvd (by omega) h; omega)
  exact hc.symm

/-- multiplying by an inverse undoes the multiplication -/
theorem mul_inverse (P k inv s : ℤ) (h : (inv * s) % P = 1) : (((k * inv) % P) * s) % P = k % P := by
  have h1 : ((k * inv) % P * s) % P = (k * inv * s) % P := by
    rw [Int.mul_emod, Int.emod_emod_of_dvd _ (dvd_refl P), ← Int.mul_emod]
  rw [h1, mul_assoc, Int.mul_emod, h, mul_one, Int.emod_emod_of_dvd _ (dvd_refl P)]

/-- an injective map of {0..n-1} into itself is onto -/
theorem inj_surj (n : ℕ) (f : Fin n → Fin n) (h : Function.Injective f) : Function.Surjective f :=
  Finite.injective_iff_surjective.1 h

/-- applying xor masks in any order gives the same result, and masks whose xor is 0 cancel -/
theorem xor_any_order (l l' : List ℕ) (h : l.Perm l') (a : ℕ) (h0 : l.foldl (· ^^^ ·) 0 = 0) :
    l'.foldl (· ^^^ ·) a = a := by
  have hc : RightCommutative (fun x y : ℕ => x ^^^ y) := ⟨fun x y z => by
    show (x ^^^ y) ^^^ z = (x ^^^ z) ^^^ y
    rw [Nat.xor_assoc, Nat.xor_comm y z, ← Nat.xor_assoc]⟩
  have hp : ∀ b, l.foldl (· ^^^ ·) b = l'.foldl (· ^^^ ·) b := fun b => h.foldl_eq b
  have hs : ∀ (m : List ℕ) (b : ℕ), m.foldl (· ^^^ ·) b = b ^^^ m.foldl (· ^^^ ·) 0 := by
    intro m
    induction m with
    | nil => intro b; simp
    | cons x xs ih =>
      intro b
      simp only [List.foldl_cons]
      rw [ih (b ^^^ x), ih (0 ^^^ x), Nat.zero_xor, Nat.xor_assoc]
  rw [← hp a, hs l a, h0, Nat.xor_zero]

/-- xor of f 0 .. f (k-1) -/
def xs (f : ℕ → ℕ) : ℕ → ℕ
  | 0 => 0
  | k + 1 => xs f k ^^^ f k

/-- the row, masked once by every hop on the way back (r n is what the last hop sends) and once
    more by the reader (pre n), comes out unmasked when the masks cancel -/
theorem retrieval (n row : ℕ) (r pre : ℕ → ℕ) (hn : r n = row)
    (hs : ∀ a < n, r a = r (a + 1) ^^^ pre a) (h0 : xs pre (n + 1) = 0) : r 0 ^^^ pre n = row := by
  have h : ∀ k ≤ n, r 0 = r k ^^^ xs pre k := by
    intro k
    induction k with
    | zero => intro _; simp [xs]
    | succ k ih =>
      intro hk
      rw [ih (by omega), hs k (by omega), xs, Nat.xor_assoc, Nat.xor_comm (pre k) (xs pre k)]
  rw [h n (le_refl n), hn, Nat.xor_assoc]
  have h1 : xs pre n ^^^ pre n = 0 := h0
  rw [h1, Nat.xor_zero]
