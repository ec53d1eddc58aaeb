------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Affine views of raw integers as IEEE 754 numbers, checked with exact    *)
(* integer arithmetic up to the rounding of a few float operations.        *)
(***************************************************************************)
EXTENDS Num

Mantissa(w) == IF w = 32 THEN 23 ELSE 52
Bias(w) == IF w = 32 THEN 127 ELSE 1023

(* The number with the bits v: class nan, inf or fin; fin is               *)
(* (neg) mag * 2^e.                                                        *)
Float(v, w) ==
  LET p == Mantissa(w)
      ebits == w - 1 - p
      E(k) == BitOf(v, p + k) * Pow2(k)
      ex == IF ebits = 8 THEN E(0) + E(1) + E(2) + E(3) + E(4) + E(5) + E(6) + E(7)
            ELSE E(0) + E(1) + E(2) + E(3) + E(4) + E(5) + E(6) + E(7) + E(8) + E(9) + E(10)
      neg == BitOf(v, w - 1) = 1
      frac == Trim(LowBits(v, p))
  IN IF ex = Pow2(ebits) - 1
     THEN [c |-> IF frac = <<>> THEN "inf" ELSE "nan", neg |-> neg, mag |-> <<>>, e |-> 0]
     ELSE IF ex = 0 THEN [c |-> "fin", neg |-> neg, mag |-> frac, e |-> 1 - Bias(w) - p]
     ELSE [c |-> "fin", neg |-> neg, mag |-> NatAdd(frac, ShiftLeft(<<1>>, p)), e |-> ex - Bias(w) - p]

(* Numbers n * 2^e as integers in units of 2^u, u <= e                     *)
Scaled(n, e, u) == IntShift(n, e - u)
Min2(a, b) == IF a < b THEN a ELSE b

(* The tolerance is Slack units in the last place of every operand.        *)
Slack == 3   \* 2^3

(* Numbers so small that only their sign matters, as the others involved  *)
(* are fractions with denominators below 2^65.                             *)
Tiny(x, k) == x.c = "fin" /\ x.mag # <<>> /\ Len(x.mag) * 8 + x.e + k < -170
Huge(x, k) == x.c = "fin" /\ x.mag # <<>> /\ x.e + k > 200
Near(x, k) == IF Tiny(x, k) THEN [x EXCEPT !.mag = <<1>>, !.e = -170 - k] ELSE x

(* value * 2^k * S = off * S + raw * d.  Infinity stands for numbers which *)
(* the type can't hold.                                                    *)
FloatReadOk(v, raw, typed, w) ==
  LET x == Near(Float(typed, w), v.k)
      u == Min2(x.e + v.k, 0)
      left == Scaled(IntMul(Signed(x.neg, x.mag), Signed(FALSE, v.S)), x.e + v.k, u)
      offS == IntMul(v.off, Signed(FALSE, v.S))
      rd == IntMul(v.d, Signed(FALSE, Trim(raw)))
      sum == IntAdd(offS, rd)
      right == Scaled(sum, 0, u)
      size == ShiftLeft(NatAdd(IntAbs(offS), IntAbs(rd)), Slack - u)
      limit == Bias(w) + v.k
  IN CASE x.c = "nan" -> FALSE
       [] x.c = "inf" -> /\ x.neg = sum.neg
                         /\ limit <= 200
                         /\ NatLe(v.S, IF limit >= 0 THEN ShiftRight(IntAbs(sum), limit) ELSE ShiftLeft(IntAbs(sum), -limit))
       [] OTHER -> ~Huge(x, v.k) /\ NatLe(ShiftLeft(IntAbs(IntSub(left, right)), Mantissa(w)), size)

(* x = (value * 2^k - off) * S / d is the exact raw value.                 *)
FloatStoreOk(v, raw, arg, w) ==
  LET x == Near(Float(arg, w), v.k)
      r == Trim(raw)
      u == Min2(x.e + v.k, 0)
      val == Scaled(Signed(x.neg, x.mag), x.e + v.k, u)
      off == Scaled(v.off, 0, u)
      \* everything times |d| * 2^p in units of 2^u
      p == Mantissa(w)
      Up(n) == IntShift(n, p)
      S == Signed(FALSE, v.S)
      X == Up(IntMul(Signed(v.d.neg # IntSub(val, off).neg, IntAbs(IntSub(val, off))), S))
      E == Signed(FALSE, ShiftLeft(NatMul(NatAdd(IntAbs(val), IntAbs(off)), v.S), Slack))
      D == Up(Scaled(Signed(FALSE, IntAbs(v.d)), 0, u))
      R == IntMul(Signed(FALSE, r), D)
      M == IntMul(Signed(FALSE, v.M), D)
      up == x.neg = v.d.neg   \* infinities
      Lt(a, b) == ~IntLe(b, a)
  IN CASE x.c = "nan" -> NatLe(r, v.M)
       [] x.c = "inf" \/ Huge(x, v.k) -> r = IF up THEN v.M ELSE <<>>
       [] OTHER ->
            /\ NatLe(r, v.M)
            /\ Lt(IntAdd(M, E), X) => r = v.M
            /\ Lt(IntAdd(X, E), Signed(FALSE, <<>>)) => r = <<>>
            /\ IntLe(X, IntAdd(M, E)) /\ IntLe(IntNeg(E), X) =>
                 Lt(Signed(FALSE, IntAbs(IntSub(X, R))), IntAdd(D, E))
=============================================================================
