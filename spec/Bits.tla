-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Where the bits of a structure field live.                               *)
(*                                                                         *)
(* The bits of a structure are numbered 0, 1, 2 ... in declaration order.  *)
(* In a little-endian protocol bit p is bit p % 8 (counted from the least  *)
(* significant one) of byte p \div 8, and value bit k of a field at offset *)
(* off is structure bit off + k.  In a big-endian one bit p is counted     *)
(* from the most significant bit of its byte, and the field's most         *)
(* significant value bit comes first.                                      *)
(***************************************************************************)
EXTENDS Num

(* The structure bit which holds value bit k of a field of n bits.         *)
BitPos(off, n, endian, k) == IF endian = "little" THEN off + k ELSE off + n - 1 - k

(* The byte of structure bit p (0 based), and its weight exponent there.   *)
ByteOfPos(p) == p \div 8
ShiftOfPos(p, endian) == IF endian = "little" THEN p % 8 ELSE 7 - (p % 8)

GetPos(buf, p, endian) == (buf[ByteOfPos(p) + 1] \div Pow2(ShiftOfPos(p, endian))) % 2

(* Value of the field at bit offset off of n bits.                         *)
ReadBits(buf, off, n, endian) ==
  IF off % 8 = 0 /\ n % 8 = 0
  THEN LET s == off \div 8
           c == n \div 8
       IN [i \in 1..8 |-> IF i > c THEN 0
                          ELSE IF endian = "little" THEN buf[s + i] ELSE buf[s + c + 1 - i]]
  ELSE LET B(k) == GetPos(buf, BitPos(off, n, endian, k), endian) IN Word(B, n)

(* The buffer after storing the low n bits of v.                           *)
WriteBits(buf, off, n, endian, v) ==
  IF off % 8 = 0 /\ n % 8 = 0
  THEN LET s == off \div 8
           c == n \div 8
       IN [i \in 1..Len(buf) |-> IF i <= s \/ i > s + c THEN buf[i]
                                 ELSE IF endian = "little" THEN v[i - s] ELSE v[s + c + 1 - i]]
  ELSE [i \in 1..Len(buf) |->
         IF 8 * i <= off \/ 8 * (i - 1) >= off + n THEN buf[i]
         ELSE LET \* structure bit p of byte i, j counted in structure order
                  P(j) == 8 * (i - 1) + j
                  K(j) == IF endian = "little" THEN P(j) - off ELSE off + n - 1 - P(j)
                  W(j) == Pow2(ShiftOfPos(P(j), endian))
                  B(j) == IF P(j) >= off /\ P(j) < off + n THEN BitOf(v, K(j)) * W(j)
                          ELSE ((buf[i] \div W(j)) % 2) * W(j)
              IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]
=============================================================================
