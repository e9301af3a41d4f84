(* One binary64 operation on binary32 operands, rounded again to binary32, equals the binary32 operation:
   rounding to nearest even, for every real result.  (Infinities, NaNs and the sign of zero are treated by the bit-level
   theory; no binary64 result of binary32 operands overflows.)  contracts/c03.py relies on exactly these five facts. *)
From Coq Require Import Reals ZArith Lia.
From Flocq Require Import Core Double_rounding.
Open Scope R_scope.

Notation f32 := (FLT_exp (-149) 24).
Notation f64 := (FLT_exp (-1074) 53).
Definition rnd32 := round radix2 f32 ZnearestE.
Definition rnd64 := round radix2 f64 ZnearestE.
Definition is32 := FLT_format radix2 (-149) 24.

Global Instance p24 : Prec_gt_0 24. Proof. unfold Prec_gt_0; reflexivity. Qed.
Global Instance p53 : Prec_gt_0 53. Proof. unfold Prec_gt_0; reflexivity. Qed.

Theorem double_add x y : is32 x -> is32 y -> rnd32 (rnd64 (x + y)) = rnd32 (x + y).
Proof. intros X Y. unfold rnd32, rnd64. apply round_round_plus_FLT; first [exact p24 | exact p53 | exact X | exact Y | lia]. Qed.

Theorem double_sub x y : is32 x -> is32 y -> rnd32 (rnd64 (x - y)) = rnd32 (x - y).
Proof. intros X Y. unfold rnd32, rnd64. apply round_round_minus_FLT; first [exact p24 | exact p53 | exact X | exact Y | lia]. Qed.

Theorem double_mul x y : is32 x -> is32 y -> rnd32 (rnd64 (x * y)) = rnd32 (x * y).
Proof.
  intros X Y. unfold rnd32, rnd64.
  apply round_round_mult_FLT; first [exact p24 | exact p53 | exact X | exact Y | lia | apply valid_rnd_N].
Qed.

Theorem double_sqrt x : is32 x -> rnd32 (rnd64 (sqrt x)) = rnd32 (sqrt x).
Proof. intros X. unfold rnd32, rnd64. apply round_round_sqrt_FLT; first [exact p24 | exact p53 | exact X | lia]. Qed.

Theorem double_div x y : y <> 0 -> is32 x -> is32 y -> rnd32 (rnd64 (x / y)) = rnd32 (x / y).
Proof.
  intros N X Y. unfold rnd32, rnd64.
  apply round_round_div_FLT; first [exact p24 | exact p53 | exact X | exact Y | exact N | (exists 1%Z; reflexivity) | (simpl; lia)].
Qed.

Print Assumptions double_div.
