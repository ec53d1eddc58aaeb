-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 byte sequences (Unicode, table 3-7).                  *)
EXTENDS Integers, Sequences

Tail8(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191

(* Length of the well-formed character at position i, 0 if there is none.  *)
CharLen(b, i) ==
  LET c == b[i]
      second(lo, hi) == i + 1 <= Len(b) /\ b[i + 1] >= lo /\ b[i + 1] <= hi
  IN CASE c <= 127 -> 1
       [] c >= 194 /\ c <= 223 -> IF second(128, 191) THEN 2 ELSE 0
       [] c = 224 -> IF second(160, 191) /\ Tail8(b, i + 2) THEN 3 ELSE 0
       [] c = 237 -> IF second(128, 159) /\ Tail8(b, i + 2) THEN 3 ELSE 0
       [] c >= 225 /\ c <= 239 /\ c # 237 -> IF second(128, 191) /\ Tail8(b, i + 2) THEN 3 ELSE 0
       [] c = 240 -> IF second(144, 191) /\ Tail8(b, i + 2) /\ Tail8(b, i + 3) THEN 4 ELSE 0
       [] c >= 241 /\ c <= 243 -> IF second(128, 191) /\ Tail8(b, i + 2) /\ Tail8(b, i + 3) THEN 4 ELSE 0
       [] c = 244 -> IF second(128, 143) /\ Tail8(b, i + 2) /\ Tail8(b, i + 3) THEN 4 ELSE 0
       [] OTHER -> 0

RECURSIVE WellFormedAt(_, _)
WellFormedAt(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET n == CharLen(b, i) IN IF n = 0 THEN FALSE ELSE WellFormedAt(b, i + n)
IsUtf8(b) == (\A i \in 1..Len(b) : b[i] < 128) \/ WellFormedAt(b, 1)
=============================================================================
