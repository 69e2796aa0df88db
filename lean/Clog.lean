/- The facts about ceil(log2 n) that the contracts of the voxelizers use. -/
import Mathlib.Data.Nat.Log
import Mathlib.Tactic.Linarith

theorem clog_one : Nat.clog 2 1 = 0 := by decide

theorem clog_half_lo (s : ℕ) (h : 2 ≤ s) : Nat.clog 2 (s / 2) + 1 ≤ Nat.clog 2 s := by
  rw [Nat.clog_of_two_le (by norm_num) h]
  exact Nat.succ_le_succ (Nat.clog_mono_right 2 (by omega))

theorem clog_half_hi (s : ℕ) (h : 2 ≤ s) : Nat.clog 2 (s - s / 2) + 1 ≤ Nat.clog 2 s := by
  rw [Nat.clog_of_two_le (by norm_num) h]
  exact Nat.succ_le_succ (Nat.clog_mono_right 2 (by omega))

theorem clog_mul (a b : ℕ) (ha : 1 ≤ a) (hb : 1 ≤ b) :
    Nat.clog 2 a + Nat.clog 2 b ≤ Nat.clog 2 (a * b) + 1 := by
  rcases Nat.lt_or_ge a 2 with h | h
  · have : a = 1 := by omega
    subst this; simp
  rcases Nat.lt_or_ge b 2 with h' | h'
  · have : b = 1 := by omega
    subst this; simp
  -- 2^(clog a - 1) < a, 2^(clog b - 1) < b
  have pa := Nat.pow_pred_clog_lt_self (b := 2) (by norm_num) (x := a) (by omega)
  have pb := Nat.pow_pred_clog_lt_self (b := 2) (by norm_num) (x := b) (by omega)
  have ca : 0 < Nat.clog 2 a := Nat.clog_pos (by norm_num) h
  have cb : 0 < Nat.clog 2 b := Nat.clog_pos (by norm_num) h'
  have key : 2 ^ ((Nat.clog 2 a).pred + (Nat.clog 2 b).pred) < a * b := by
    rw [pow_add]
    exact Nat.mul_lt_mul'' pa pb
  have : (Nat.clog 2 a).pred + (Nat.clog 2 b).pred < Nat.clog 2 (a * b) := by
    have hle := Nat.le_pow_clog (b := 2) (by norm_num) (a * b)
    exact (Nat.pow_lt_pow_iff_right (by norm_num)).mp (lt_of_lt_of_le key hle)
  have e1 : (Nat.clog 2 a).pred = Nat.clog 2 a - 1 := rfl
  have e2 : (Nat.clog 2 b).pred = Nat.clog 2 b - 1 := rfl
  omega
#print axioms clog_one
#print axioms clog_half_lo
#print axioms clog_half_hi
#print axioms clog_mul
