-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers which do not fit TLC's 32 bit integers.                         *)
(*                                                                         *)
(* A "word" is the value of a scalar of at most 64 bits: a sequence of     *)
(* exactly 8 bytes, least significant byte first.  A "nat" is a natural    *)
(* number of any size: bytes, least significant first, without trailing    *)
(* zeros.  An "int" is [neg, mag] with mag a nat.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

Pow2(k) == 2 ^ k

(* Bit k (0 = least significant) of a sequence of bytes.                   *)
BitOf(v, k) == IF k \div 8 >= Len(v) THEN 0 ELSE (v[k \div 8 + 1] \div Pow2(k % 8)) % 2

(* The word with the given bits, bit(k) being defined for k in 0..n-1.     *)
Word(bit(_), n) ==
  [i \in 1..8 |->
    LET B(j) == IF 8 * (i - 1) + j < n THEN bit(8 * (i - 1) + j) * Pow2(j) ELSE 0
    IN IF 8 * (i - 1) >= n THEN 0
       ELSE B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]

(* The low n bits of a word.                                               *)
LowBits(v, n) ==
  [i \in 1..8 |-> IF 8 * i <= n THEN v[i]
                  ELSE IF 8 * (i - 1) >= n THEN 0
                  ELSE v[i] % Pow2(n - 8 * (i - 1))]

(* Two's complement extension of an n bit value to 64 bits.                *)
SignExtend(v, n) ==
  IF BitOf(v, n - 1) = 0 THEN LowBits(v, n)
  ELSE [i \in 1..8 |-> IF 8 * i <= n THEN v[i]
                       ELSE IF 8 * (i - 1) >= n THEN 255
                       ELSE (v[i] % Pow2(n - 8 * (i - 1))) + (256 - Pow2(n - 8 * (i - 1)))]

IsZero(v) == \A i \in 1..Len(v) : v[i] = 0

OfInt(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

(* A word as an integer, or the given limit when it is larger.             *)
ToIntMax(v, limit) ==
  IF v[8] + v[7] + v[6] + v[5] # 0 \/ v[4] >= 128 THEN limit
  ELSE LET n == v[1] + 256 * v[2] + 65536 * v[3] + 16777216 * v[4]
       IN IF n > limit THEN limit ELSE n

Padded(v) == [i \in 1..8 |-> IF i <= Len(v) THEN v[i] ELSE 0]

----------------------------------------------------------------------------
(* Naturals                                                                *)

RECURSIVE Trim(_)
Trim(v) == IF v = <<>> THEN v ELSE IF v[Len(v)] = 0 THEN Trim(SubSeq(v, 1, Len(v) - 1)) ELSE v

RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatOf(n \div 256)

MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Byte(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF Byte(a, i) < Byte(b, i) THEN -1
                  ELSE IF Byte(a, i) > Byte(b, i) THEN 1
                  ELSE CmpAt(a, b, i - 1)
NatCmp(a, b) == CmpAt(a, b, MaxLen(a, b))
NatLe(a, b) == NatCmp(a, b) <= 0
NatLt(a, b) == NatCmp(a, b) < 0

RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, i, carry, acc) ==
  IF i > MaxLen(a, b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == Byte(a, i) + Byte(b, i) + carry
       IN AddAt(a, b, i + 1, s \div 256, Append(acc, s % 256))
NatAdd(a, b) == Trim(AddAt(a, b, 1, 0, <<>>))

(* a - b for a >= b                                                        *)
RECURSIVE SubAt(_, _, _, _, _)
SubAt(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET d == a[i] - Byte(b, i) - borrow
       IN IF d < 0 THEN SubAt(a, b, i + 1, 1, Append(acc, d + 256))
          ELSE SubAt(a, b, i + 1, 0, Append(acc, d))
NatSub(a, b) == Trim(SubAt(a, b, 1, 0, <<>>))

RECURSIVE MulByteAt(_, _, _, _, _)
MulByteAt(a, d, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == a[i] * d + carry
       IN MulByteAt(a, d, i + 1, s \div 256, Append(acc, s % 256))

RECURSIVE MulAt(_, _, _)
MulAt(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET rest == MulAt(a, b, i + 1)
           low == MulByteAt(a, b[i], 1, 0, <<>>)
       IN NatAdd(low, IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
NatMul(a, b) == Trim(MulAt(a, b, 1))

(* Multiplication and (rounding down) division by powers of two.           *)
ShiftLeft(a, k) ==
  IF a = <<>> THEN a
  ELSE Trim([i \in 1..(k \div 8) |-> 0] \o MulByteAt(a, Pow2(k % 8), 1, 0, <<>>))
ShiftRight(a, k) ==
  IF Len(a) <= k \div 8 THEN <<>>
  ELSE LET b == SubSeq(a, k \div 8 + 1, Len(a))
           s == k % 8
       IN Trim([i \in 1..Len(b) |-> (b[i] \div Pow2(s)) + (Byte(b, i + 1) % Pow2(s)) * Pow2(8 - s)])

(* Quotient of naturals, by long division over bits.                       *)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, b, k, rem, acc) ==
  IF k < 0 THEN acc
  ELSE LET r1 == NatAdd(ShiftLeft(rem, 1), IF BitOf(a, k) = 1 THEN <<1>> ELSE <<>>)
       IN IF NatLe(b, r1) THEN DivAt(a, b, k - 1, NatSub(r1, b), NatAdd(ShiftLeft(acc, 1), <<1>>))
          ELSE DivAt(a, b, k - 1, r1, ShiftLeft(acc, 1))
NatDiv(a, b) == DivAt(a, b, 8 * Len(a) - 1, <<>>, <<>>)

----------------------------------------------------------------------------
(* Integers                                                                *)

Signed(neg, mag) == [neg |-> (neg /\ mag # <<>>), mag |-> mag]
IntOf(n) == IF n < 0 THEN Signed(TRUE, NatOf(-n)) ELSE Signed(FALSE, NatOf(n))
IntNeg(a) == Signed(~a.neg, a.mag)
IntAdd(a, b) ==
  IF a.neg = b.neg THEN Signed(a.neg, NatAdd(a.mag, b.mag))
  ELSE IF NatLe(b.mag, a.mag) THEN Signed(a.neg, NatSub(a.mag, b.mag))
  ELSE Signed(b.neg, NatSub(b.mag, a.mag))
IntSub(a, b) == IntAdd(a, IntNeg(b))
IntMul(a, b) == Signed(a.neg # b.neg, NatMul(a.mag, b.mag))
IntShift(a, k) == Signed(a.neg, ShiftLeft(a.mag, k))
IntLe(a, b) == LET d == IntSub(a, b) IN d.neg \/ d.mag = <<>>
IntAbs(a) == a.mag

(* Rounded towards zero, and down, by a positive natural.                  *)
IntQuot(a, b) == Signed(a.neg, NatDiv(a.mag, b))
=============================================================================
