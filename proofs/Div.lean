/-! Facts about Euclidean division of natural numbers.  pydv (interp.Engine.divide) hands the solvers ground instances of
    exactly these, with `x / y` and `x % y` otherwise uninterpreted. -/

theorem rem_lt (x y : Nat) (h : y ≠ 0) : x % y < y := Nat.mod_lt x (Nat.pos_of_ne_zero h)

theorem quot_le (x y : Nat) : x / y ≤ x := Nat.div_le_self x y

theorem rem_le (x y : Nat) : x % y ≤ x := Nat.mod_le x y

theorem small (x y : Nat) (h : x < y) : x / y = 0 ∧ x % y = x := ⟨Nat.div_eq_of_lt h, Nat.mod_eq_of_lt h⟩

theorem by_one (x : Nat) : x / 1 = x ∧ x % 1 = 0 := ⟨Nat.div_one x, Nat.mod_one x⟩

theorem quot_half (x y : Nat) (h : 2 ≤ y) : x / y ≤ x / 2 := Nat.div_le_div_left h (by decide)

theorem exact_part (x y : Nat) (h : y ≠ 0) : (x - x % y) / y = x / y ∧ (x - x % y) % y = 0 := by
  have hp : 0 < y := Nat.pos_of_ne_zero h
  have e : x - x % y = y * (x / y) := by
    have := Nat.div_add_mod x y
    omega
  rw [e]
  exact ⟨Nat.mul_div_cancel_left _ hp, Nat.mul_mod_right y (x / y)⟩

/-- what makes `x / y` and `x % y` the quotient and the remainder -/
theorem euclid (x y : Nat) : y * (x / y) + x % y = x := Nat.div_add_mod x y

theorem unique (x y q r : Nat) (h : y ≠ 0) (e : y * q + r = x) (l : r < y) : q = x / y ∧ r = x % y := by
  have hp : 0 < y := Nat.pos_of_ne_zero h
  subst e
  constructor
  · rw [Nat.mul_add_div hp, Nat.div_eq_of_lt l, Nat.add_zero]
  · rw [Nat.mul_add_mod, Nat.mod_eq_of_lt l]

#print axioms exact_part
#print axioms unique
#print axioms quot_half
