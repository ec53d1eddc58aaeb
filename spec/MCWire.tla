------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* All messages of up to Model.depth of the fields Model.alts over the     *)
(* definitions Model.base, every one of them with all combinations of some *)
(* small values (step Choose), and with all short byte strings over        *)
(* Model.bytes up to a length of Model.len (step Feed): what the           *)
(* specification of the wire format guarantees.                            *)
(* Exports the definitions and values for the real code.                   *)
(***************************************************************************)
EXTENDS Wire, Sound, IOUtils, Json

Model == JsonDeserialize(IOEnv.MODEL)

Own == [name |-> "p", endian |-> Model.endian, imports |-> Model.imports, enums |-> <<>>, structs |-> <<>>,
        unions |-> <<>>, messages |-> <<>>]
Base == LET items == Items(Model.base, <<Own>>)
        IN RunFrom(Start, SubSeq(items, 1, Len(items) - 1), 1)
ASSUME Base.ok

VARIABLES seq, st, val, in
vars == <<seq, st, val, in>>

Field(s, k) ==
  LET a == Model.alts[s[k]]
  IN [a EXCEPT !.name = "f" \o ToString(k)]
Compiled(s) == Step(Base, [op |-> "message", d |-> [name |-> "X", fields |-> [k \in 1..Len(s) |-> Field(s, k)]]])

KeyX == st.order[Len(st.order)]
(* What Wire needs to know of a message: whether other data follows it.    *)
Objs == [k \in DOMAIN st.objs |-> IF st.objs[k].k = "message" THEN st.objs[k] @@ [emb |-> k \in st.emb] ELSE st.objs[k]]

----------------------------------------------------------------------------
(* Small values                                                            *)

Texts == {Model.texts[k] : k \in 1..Len(Model.texts)}
RECURSIVE SmallMsg(_, _, _), SmallItem(_, _, _), SmallFields(_, _, _, _)

(* Words of 1, and of all ones.                                            *)
Numbers(f) == {<<>>} \cup (IF f.ty.c = "b" THEN {<<1>>} ELSE {[i \in 1..(f.ty.w \div 8) |-> 254 + (i % 2)]})
Bytes1(n) == {[i \in 1..n |-> 0], [i \in 1..n |-> (37 * i + 1) % 256]}

SmallItem(objs, key, few) == IF objs[key].k = "struct" THEN Bytes1(objs[key].bytes) ELSE SmallMsg(objs, key, few)

SomeOf(S) == IF S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN {x, CHOOSE y \in S : S = {x} \/ y # x}

SmallBase(objs, f, few) ==
  CASE f.kind = "fixed" -> Numbers(f)
    [] f.kind = "struct" -> SmallItem(objs, f.ref, few)
    [] f.kind = "msg" -> LET S == SmallItem(objs, f.ref, TRUE) IN IF few THEN SomeOf(S) ELSE S
    [] f.kind \in {"nstr", "vstr"} -> IF few THEN {<<>>, <<65, 66>>} ELSE Texts
    [] f.kind = "payload" -> {<<>>, <<0, 7>>}
    [] f.kind \in {"array", "list"} ->
         LET I == SomeOf(SmallItem(objs, f.ref, TRUE))
         IN {<<>>} \cup {<<x>> : x \in I} \cup (IF few THEN {} ELSE {<<x, y>> : x, y \in I})
    [] f.kind = "union" ->
         UNION {IF objs[f.ref].cases[c].ref = "" THEN {[c |-> c, v |-> <<>>]}
                ELSE {[c |-> c, v |-> <<x>>] : x \in SomeOf(SmallItem(objs, objs[f.ref].cases[c].ref, TRUE))}
                : c \in 1..Len(objs[f.ref].cases)}

SmallField(objs, f, few) ==
  LET S == SmallBase(objs, f, few)
  IN IF f.opt THEN {<<>>} \cup {<<x>> : x \in S} ELSE S

SmallFields(objs, fields, i, few) ==
  IF i > Len(fields) THEN {<<>>}
  ELSE {<<x>> \o r : x \in SmallField(objs, fields[i], few), r \in SmallFields(objs, fields, i + 1, few)}

SmallMsg(objs, key, few) == SmallFields(objs, objs[key].fields, 1, few)

(* Discriminants are made to match, except when the case is the last one.  *)
RECURSIVE Matched(_, _, _, _)
Matched(objs, m, vals, i) ==
  IF i > Len(m.fields) THEN vals
  ELSE LET f == m.fields[i]
           u == objs[f.ref]
           v == vals[i]
       IN IF f.kind # "union" THEN Matched(objs, m, vals, i + 1)
          ELSE Matched(objs, m,
                 [vals EXCEPT ![f.on] = WriteBits(@, u.leaf.off, u.leaf.bits, u.leaf.endian, u.cases[v.c].v)], i + 1)

----------------------------------------------------------------------------
Nothing == [mode |-> "none"]
Init == seq = <<>> /\ st = Compiled(<<>>) /\ val = Nothing /\ in = Nothing

Grow == /\ val = Nothing /\ in = Nothing /\ Len(seq) < Model.depth
        /\ \E a \in 1..Len(Model.alts) : seq' = Append(seq, a)
        /\ st' = Compiled(seq')
        /\ PrintT("EXPORT " \o ToJson([seq |-> seq', ok |-> st'.ok, mode |-> "def"]))
        /\ UNCHANGED <<val, in>>

Choose == /\ val = Nothing /\ in = Nothing /\ st.ok
          /\ LET few == Len(seq) > Model.full
             IN \E v \in SmallMsg(Objs, KeyX, few) :
                  \E w \in {v, Matched(Objs, Objs[KeyX], v, 1)} : val' = [mode |-> "value", v |-> w]
          /\ PrintT("EXPORT " \o ToJson([seq |-> seq, v |-> val'.v, mode |-> "value"]))
          /\ UNCHANGED <<seq, st, in>>

Feed == /\ val = Nothing /\ st.ok /\ Len(seq) <= Model.fed
        /\ \/ in = Nothing /\ in' = [mode |-> "bytes", b |-> <<>>]
           \/ /\ in # Nothing /\ Len(in.b) < Model.len
              /\ \E x \in {Model.bytes[k] : k \in 1..Len(Model.bytes)} : in' = [in EXCEPT !.b = Append(@, x)]
        /\ UNCHANGED <<seq, st, val>>

Next == Grow \/ Choose \/ Feed
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Guarantees                                                              *)

RECURSIVE Open(_, _)
Open(objs, key) ==
  \E j \in 1..Len(objs[key].fields) :
    LET f == objs[key].fields[j]
        u == objs[f.ref]
    IN \/ f.kind = "payload"
       \/ f.kind = "list" /\ ~objs[key].emb
       \/ f.kind = "msg" /\ Open(objs, f.ref)
       \/ f.kind = "union" /\ \E c \in 1..Len(u.cases) :
            u.cases[c].ref # "" /\ objs[u.cases[c].ref].k = "message" /\ Open(objs, u.cases[c].ref)

RECURSIVE Tiles(_, _, _, _)
Tiles(objs, key, offs, size) ==
  LET m == objs[key]
      at(k) == IF k = 0 THEN 0 ELSE offs[k][2]
  IN /\ Len(offs) = Len(m.fields)
     /\ at(Len(offs)) = size
     /\ \A j \in 1..Len(m.fields) :
          /\ offs[j][1] = at(j - 1) /\ offs[j][1] <= offs[j][2]
          /\ (m.fields[j].kind = "msg" /\ offs[j][3] # <<>>) =>
               Tiles(objs, m.fields[j].ref, offs[j][3][1], offs[j][2] - offs[j][1] - (IF m.fields[j].opt THEN 1 ELSE 0))

Valued == val # Nothing
Made1 == Make(Objs, KeyX, val.v)
Encoded == Enc(Objs, KeyX, Made1.v)
Fine == Valued /\ Made1.ok /\ Encoded.ok

(* C07, C10: what encodes decodes to the same value, and as large as it is *)
RoundTrip == Fine =>
  LET objs == Objs
      b == Encoded.b
      r == Dec(objs, KeyX, b)
  IN /\ r.ok /\ r.size = Len(b)
     /\ Shown(objs, KeyX, r.v, FALSE) = Shown(objs, KeyX, Made1.v, FALSE)
     /\ Enc(objs, KeyX, r.v) = Encoded

(* C09: nothing may be missing, and more does no harm.                     *)
Complete == (Fine /\ ~Open(Objs, KeyX)) =>
  LET objs == Objs
      b == Encoded.b
      r == Dec(objs, KeyX, b)
  IN /\ \A k \in 0..(Len(b) - 1) : Dec(objs, KeyX, SubSeq(b, 1, k)).e = Truncated
     /\ \A x \in {<<0>>, <<1, 255>>} : Dec(objs, KeyX, b \o x) = r

(* C11: the offsets tile the message, and each range is its field.         *)
Offsets == Fine =>
  LET objs == Objs
      b == Encoded.b
      r == Dec(objs, KeyX, b)
      m == objs[KeyX]
  IN /\ Tiles(objs, KeyX, r.offs, r.size)
     /\ \A j \in 1..Len(m.fields) :
          SubSeq(b, r.offs[j][1] + 1, r.offs[j][2]) = EncField(objs, m, m.fields[j], Made1.v[j], Made1.v).b

(* C14: an encoded union carries the discriminant of its case.             *)
UnionsMatch == Fine =>
  LET objs == Objs
      m == objs[KeyX]
      r == Dec(objs, KeyX, Encoded.b)
  IN \A j \in 1..Len(m.fields) :
       LET f == m.fields[j]
           u == objs[f.ref]
       IN f.kind = "union" => RawDiscriminant(u, r.v[f.on]) = u.cases[r.v[j].c].v

(* C15: one flag byte, and what follows only when present.                 *)
Flags == Fine =>
  LET objs == Objs
      m == objs[KeyX]
      r == Dec(objs, KeyX, Encoded.b)
  IN \A j \in 1..Len(m.fields) :
       m.fields[j].opt =>
         LET part == SubSeq(Encoded.b, r.offs[j][1] + 1, r.offs[j][2])
         IN IF Made1.v[j] = <<>> THEN part = <<0>>
            ELSE /\ part[1] = 1
                 /\ Tail(part) = EncBase(objs, m, m.fields[j], Made1.v[j][1], Made1.v).b

(* C12: a prefix tells how much follows.                                   *)
LengthsTell == Fine =>
  LET objs == Objs
      m == objs[KeyX]
      r == Dec(objs, KeyX, Encoded.b)
  IN \A j \in 1..Len(m.fields) :
       LET f == m.fields[j]
           part == SubSeq(Encoded.b, r.offs[j][1] + 1, r.offs[j][2])
           p == f.w \div 8
       IN (f.w > 0 /\ ~f.opt) =>
            DecWord(part, f.w, f.endian) =
              (IF f.kind = "vstr" THEN OfInt(Len(part) - p)
               ELSE IF f.kind = "array" THEN OfInt((Len(part) - p) \div objs[f.ref].bytes)
               ELSE OfInt(Len(ListItems(objs, f.ref, r.v[j]).items)))

(* C16: no string with a terminator inside is encoded.                     *)
NoTerminatorInside == Fine =>
  \A j \in 1..Len(Objs[KeyX].fields) :
    (Objs[KeyX].fields[j].kind = "nstr" /\ ~Objs[KeyX].fields[j].opt) =>
      \A k \in 1..Len(val.v[j]) : val.v[j][k] # 0

(* C08: decoding anything ends with a value or an error, inside the input. *)
Total == in # Nothing =>
  LET objs == Objs
      r == Dec(objs, KeyX, in.b)
  IN /\ r.ok => /\ r.e = NoError /\ r.size <= Len(in.b)
                /\ Tiles(objs, KeyX, r.offs, r.size)
                \* and what was decoded can be encoded again, to the same meaning
                /\ LET e == Enc(objs, KeyX, r.v)
                   IN e.ok => /\ Len(e.b) = r.size
                              /\ Dec(objs, KeyX, e.b).v = r.v
     /\ ~r.ok => r.e.e \in {"trunc", "utf8", "disc"}

(* C09: more input never changes a decoded value, and only input which is  *)
(* too short gets better.                                                  *)
Stable == [][(in # Nothing /\ in' # in /\ ~Open(Objs, KeyX)) =>
  LET objs == Objs
      r == Dec(objs, KeyX, in.b)
      s == Dec(objs, KeyX, in'.b)
  IN IF r.ok THEN s = r
     ELSE r.e # Truncated => s.e = r.e]_vars

Sound == MessageSound(st)
=============================================================================
