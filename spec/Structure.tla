----------------------------- MODULE Structure -----------------------------
(***************************************************************************)
(* A structure in memory as a state machine.  The state is the bytes of    *)
(* the structure; the operations are the generated accessors.              *)
(*                                                                         *)
(* A leaf is a scalar or an array inside the structure (Leaves in module   *)
(* Compiler), off being its absolute bit offset.                           *)
(***************************************************************************)
EXTENDS Bits, Floats, Compiler

(* What the raw accessors see: a word per scalar, words per array.         *)
Element(f, i) == [off |-> f.off + (i - 1) * f.item, bits |-> f.item, endian |-> f.endian]

(* Array elements are read with their declared type.                       *)
ElementValue(f, w) ==
  CASE f.ty.c = "b" -> IF IsZero(w) THEN Zero8 ELSE OfInt(1)
    [] f.ty.c = "i" -> LowBits(SignExtend(w, f.item), f.ty.w)
    [] OTHER -> w
ElementBits(f, v) == IF f.ty.c = "b" THEN (IF IsZero(v) THEN Zero8 ELSE OfInt(1)) ELSE LowBits(v, f.item)

ReadLeaf(b, f) ==
  IF f.kind = "array"
  THEN [i \in 1..f.n |-> LET e == Element(f, i) IN ElementValue(f, ReadBits(b, e.off, e.bits, e.endian))]
  ELSE ReadBits(b, f.off, f.bits, f.endian)

Observe(b, leaves) == [j \in 1..Len(leaves) |-> ReadLeaf(b, leaves[j])]

----------------------------------------------------------------------------
(* The typed accessors as functions of the raw value.                      *)

VariantOf(e, raw) ==
  LET I == {i \in 1..Len(e.variants) : e.variants[i].v = raw}
  IN IF I = {} THEN <<>> ELSE <<CHOOSE i \in I : TRUE>>

(* Class of a scalar: which property describes its typed accessors.        *)
Class(f) == IF f.view.t = "enum" THEN "enum"
            ELSE IF f.view.t \in {"range", "mult"} THEN "float"
            ELSE "plain"

PlainValue(f, raw) ==
  CASE f.ty.c = "b" -> IF IsZero(raw) THEN Zero8 ELSE OfInt(1)
    [] f.ty.c = "i" -> LowBits(SignExtend(raw, f.bits), f.ty.w)
    [] OTHER -> raw

PlainBits(f, v) ==
  CASE f.ty.c = "b" -> IF IsZero(v) THEN Zero8 ELSE OfInt(1)
    [] OTHER -> LowBits(v, f.bits)

(* Float views as [S, off, d, k, M]: value * 2^k * S = off * S + raw * d   *)
Affine(f) ==
  LET top == NatSub(ShiftLeft(<<1>>, f.bits), <<1>>)
      v == f.view
  IN IF v.t = "range" THEN [S |-> top, off |-> IntOf(v.a), d |-> IntOf(v.b - v.a), k |-> v.k, M |-> top]
     ELSE [S |-> <<1>>, off |-> IntOf(0), d |-> IntOf(v.a), k |-> v.k, M |-> top]

(* The typed value is acceptable for the raw one.                          *)
TypedOk(objs, f, raw, typed) ==
  CASE Class(f) = "enum" -> typed = VariantOf(objs[f.view.ref], raw)
    [] Class(f) = "plain" -> typed = PlainValue(f, raw)
    [] Class(f) = "float" -> FloatReadOk(Affine(f), raw, typed, f.ty.w)

(* The raw value is acceptable after storing the typed one.                *)
StoredOk(objs, f, arg, raw) ==
  CASE Class(f) = "enum" -> raw = objs[f.view.ref].variants[arg[1]].v
    [] Class(f) = "plain" -> raw = PlainBits(f, arg)
    [] Class(f) = "float" -> FloatStoreOk(Affine(f), raw, arg, f.ty.w)

----------------------------------------------------------------------------
(* Transitions                                                             *)

SetRaw(b, f, v) == WriteBits(b, f.off, f.bits, f.endian, v)
SetElement(b, f, i, v) == LET e == Element(f, i) IN WriteBits(b, e.off, e.bits, e.endian, ElementBits(f, v))
SetByte(b, f, i, v) == [b EXCEPT ![f.off \div 8 + i] = v[1]]
LeafBytes(b, f) == SubSeq(b, f.off \div 8 + 1, f.off \div 8 + f.n)
=============================================================================
