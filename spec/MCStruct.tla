------------------------------ MODULE MCStruct ------------------------------
(***************************************************************************)
(* All structures of up to Model.depth of the fields Model.alts, and every *)
(* store into every one of their scalars and array elements, of values at  *)
(* the limits of the field, into memory of several patterns:               *)
(* what is stored reads back, nothing else changes, and where the bits are *)
(* follows from the order of the fields and the endianness alone.          *)
(* Exports every definition for the real compiler.                         *)
(***************************************************************************)
EXTENDS Structure, Sound, IOUtils, Json

Model == JsonDeserialize(IOEnv.MODEL)

Own == [name |-> "p", endian |-> Model.endian, imports |-> Model.imports, enums |-> <<>>, structs |-> <<>>,
        unions |-> <<>>, messages |-> <<>>]
Base == LET items == Items(Model.base, <<Own>>)
        IN RunFrom(Start, SubSeq(items, 1, Len(items) - 1), 1)
ASSUME Base.ok

VARIABLES seq, st, buf, did
vars == <<seq, st, buf, did>>

Compiled(s) ==
  Step(Base, [op |-> "struct",
              d |-> [name |-> "X", fields |-> [k \in 1..Len(s) |-> [Model.alts[s[k]] EXCEPT !.name = "f" \o ToString(k)]]]])

KeyX == st.order[Len(st.order)]
LeavesX == Leaves(st.objs, KeyX, <<>>, 0)
SizeX == st.objs[KeyX].bytes

(* Memory before: one byte more than the structure has.                    *)
Pattern(p, i) == CASE p = 0 -> 0 [] p = 1 -> 255 [] p = 2 -> IF i % 2 = 0 THEN 165 ELSE 90
Memory(p) == [i \in 1..(SizeX + 1) |-> Pattern(p, i)]

Ones == <<255, 255, 255, 255, 255, 255, 255, 255>>
(* Values at the limits of n bits, and one which is too wide.              *)
Limits(n) == {Zero8, OfInt(1), LowBits(Ones, n), LowBits(Ones, n - 1), Ones,
              LowBits(<<86, 52, 18, 120, 188, 154, 240, 222>>, n)}

Parts(f) == IF f.kind = "array" THEN 1..f.n ELSE {0}

Init == seq = <<>> /\ st = Compiled(<<>>) /\ buf = <<>> /\ did = <<>>

Grow == /\ buf = <<>> /\ Len(seq) < Model.depth
        /\ \E a \in 1..Len(Model.alts) : seq' = Append(seq, a)
        /\ st' = Compiled(seq')
        /\ PrintT("EXPORT " \o ToJson([seq |-> seq', ok |-> st'.ok]))
        /\ UNCHANGED <<buf, did>>

Use == /\ buf = <<>> /\ st.ok /\ seq # <<>>
       /\ \E p \in 0..2 : buf' = Memory(p)
       /\ UNCHANGED <<seq, st, did>>

Store == /\ buf # <<>> /\ did = <<>>
         /\ \E j \in 1..Len(LeavesX) : \E e \in Parts(LeavesX[j]) :
              LET f == LeavesX[j]
              IN \E v \in Limits(IF e = 0 THEN f.bits ELSE f.item) :
                   /\ did' = <<j, e, v>>
                   /\ buf' = IF e = 0 THEN SetRaw(buf, f, v) ELSE SetElement(buf, f, e, v)
         /\ UNCHANGED <<seq, st>>

Next == Grow \/ Use \/ Store
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Stored == buf # <<>> /\ did = <<>> /\ did' # <<>>

(* C01: what is stored reads back, reduced to the width of the field.      *)
ReadsBack == [][Stored =>
  LET f == LeavesX[did'[1]]
      now == ReadLeaf(buf', f)
  IN IF did'[2] = 0
     THEN /\ now = LowBits(did'[3], f.bits)
          /\ f.ty.c \in {"u", "i"} =>
               LowBits(PlainValue(f, now), f.bits) = LowBits(did'[3], f.bits)
          \* the typed accessors describe the same bits
          /\ PlainBits(f, PlainValue(f, now)) = IF f.ty.c = "b" THEN OfInt(IF IsZero(now) THEN 0 ELSE 1) ELSE now
     ELSE now = [ReadLeaf(buf, f) EXCEPT ![did'[2]] = ElementValue(f, ElementBits(f, did'[3]))]]_vars

(* C02, C06: nothing else changes.                                         *)
Isolated == [][Stored =>
  /\ Len(buf') = Len(buf)
  /\ \A k \in 1..Len(LeavesX) : k # did'[1] => ReadLeaf(buf', LeavesX[k]) = ReadLeaf(buf, LeavesX[k])
  /\ LET f == LeavesX[did'[1]]
         lo == IF did'[2] = 0 THEN f.off ELSE Element(f, did'[2]).off
         n == IF did'[2] = 0 THEN f.bits ELSE f.item
     IN \A p \in 0..(8 * Len(buf) - 1) :
          (p < lo \/ p >= lo + n) => GetPos(buf', p, f.endian) = GetPos(buf, p, f.endian)]_vars

(* C03: value bit k of a field is the structure bit its position says.     *)
Positions == (buf # <<>> /\ did = <<>>) =>
  \A j \in 1..Len(LeavesX) :
    LET f == LeavesX[j]
        bits(off, n, w) == \A k \in 0..(n - 1) : BitOf(w, k) = GetPos(buf, BitPos(off, n, f.endian, k), f.endian)
        aligned == f.off % 8 = 0 /\ f.bits % 8 = 0
    IN f.kind = "fixed" => (IF f.endian = "little" \/ ~aligned THEN bits(f.off, f.bits, ReadLeaf(buf, f))
                            \* big endian: most significant byte first, and bit by bit the same
                            ELSE \A k \in 0..(f.bits - 1) : BitOf(ReadLeaf(buf, f), k) =
                                   GetPos(buf, f.off + f.bits - 1 - k, "big"))

LeafBits(f) == f.off..(f.off + f.bits - 1)
(* The leaves of a structure are disjoint and leave no bit out.            *)
Tiled == (buf # <<>> /\ did = <<>>) =>
  /\ \A j, k \in 1..Len(LeavesX) : j # k => LeafBits(LeavesX[j]) \cap LeafBits(LeavesX[k]) = {}
  /\ (\A j \in 1..Len(st.objs[KeyX].fields) : st.objs[KeyX].fields[j].kind # "struct") =>
        UNION {LeafBits(LeavesX[j]) : j \in 1..Len(LeavesX)} = 0..(st.objs[KeyX].bits - 1)
  /\ \A j \in 1..Len(LeavesX) : LeavesX[j].off + LeavesX[j].bits <= 8 * SizeX

Sound == StructSound(st)
=============================================================================
