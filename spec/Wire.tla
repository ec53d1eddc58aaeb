-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format of messages: encoding, decoding and the sizes and field *)
(* offsets both report, for the definitions in objs (as compiled by        *)
(* Compiler, with an additional flag emb on messages).                     *)
(*                                                                         *)
(* Values:                                                                 *)
(*   fixed             word                                                *)
(*   struct            its bytes                                           *)
(*   nstr vstr payload its bytes                                           *)
(*   array list        [n |-> number of items (word), d |-> their bytes]   *)
(*   union             [c |-> index of the case, v |-> <<content>> or <<>>]*)
(*   msg               sequence of the values of its fields                *)
(*   optional          <<>> or <<value>>                                   *)
(*                                                                         *)
(* Results are [ok, e, ...] with e = [e |-> kind of error, d |-> word].    *)
(***************************************************************************)
EXTENDS Bits, Utf8

NoError == [e |-> "none", d |-> Zero8]
Truncated == [e |-> "trunc", d |-> Zero8]
InvalidUtf8 == [e |-> "utf8", d |-> Zero8]
IoError == [e |-> "io", d |-> Zero8]
BadDiscriminant(d) == [e |-> "disc", d |-> d]

From(b, i) == SubSeq(b, i, Len(b))

(* A word as w \div 8 bytes in the given order, and back.                  *)
EncWord(v, w, endian) ==
  [i \in 1..(w \div 8) |-> IF endian = "little" THEN v[i] ELSE v[w \div 8 + 1 - i]]
DecWord(b, w, endian) ==
  [i \in 1..8 |-> IF i > w \div 8 THEN 0 ELSE IF endian = "little" THEN b[i] ELSE b[w \div 8 + 1 - i]]

FindCase(u, raw) ==
  LET I == {i \in 1..Len(u.cases) : u.cases[i].v = raw}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE

RawDiscriminant(u, struct) == ReadBits(struct, u.leaf.off, u.leaf.bits, u.leaf.endian)

----------------------------------------------------------------------------
(* Encoding                                                                *)

Out(b) == [ok |-> TRUE, e |-> NoError, b |-> b]
Refuse(e) == [ok |-> FALSE, e |-> e, b |-> <<>>]

WithPrefix(n, w, endian, b) ==
  IF n = LowBits(n, w) THEN Out(EncWord(n, w, endian) \o b) ELSE Refuse(IoError)

RECURSIVE Enc(_, _, _), EncFields(_, _, _, _, _)

EncBase(objs, m, f, v, vals) ==
  CASE f.kind = "fixed" -> Out(EncWord(v, f.ty.w, f.endian))
    [] f.kind = "struct" -> Out(v)
    [] f.kind = "msg" -> Enc(objs, f.ref, v)
    [] f.kind = "nstr" -> IF \E i \in 1..Len(v) : v[i] = 0 THEN Refuse(IoError) ELSE Out(Append(v, 0))
    [] f.kind = "vstr" -> WithPrefix(OfInt(Len(v)), f.w, f.endian, v)
    [] f.kind \in {"array", "list"} -> WithPrefix(v.n, f.w, f.endian, v.d)
    [] f.kind = "payload" -> Out(v)
    [] f.kind = "union" ->
         LET u == objs[f.ref]
             raw == RawDiscriminant(u, vals[f.on])
             case == u.cases[v.c]
         IN IF raw # case.v THEN Refuse(BadDiscriminant(raw))
            ELSE IF case.ref = "" THEN Out(<<>>)
            ELSE IF objs[case.ref].k = "struct" THEN Out(v.v[1])
            ELSE Enc(objs, case.ref, v.v[1])

EncField(objs, m, f, v, vals) ==
  IF ~f.opt THEN EncBase(objs, m, f, v, vals)
  ELSE IF v = <<>> THEN Out(<<0>>)
  ELSE LET r == EncBase(objs, m, f, v[1], vals) IN IF r.ok THEN Out(<<1>> \o r.b) ELSE r

EncFields(objs, m, vals, i, acc) ==
  IF i > Len(m.fields) THEN Out(acc)
  ELSE LET r == EncField(objs, m, m.fields[i], vals[i], vals)
       IN IF r.ok THEN EncFields(objs, m, vals, i + 1, acc \o r.b) ELSE r

Enc(objs, key, vals) == EncFields(objs, objs[key], vals, 1, <<>>)

EncItem(objs, key, v) == IF objs[key].k = "struct" THEN Out(v) ELSE Enc(objs, key, v)

----------------------------------------------------------------------------
(* Decoding.  offs are the field offsets: <<start, end, sub>> per field,   *)
(* sub holding the offsets of a nested message when it is present.         *)

Got(size, v, offs) == [ok |-> TRUE, e |-> NoError, size |-> size, v |-> v, offs |-> offs]
Err(e) == [ok |-> FALSE, e |-> e, size |-> 0, v |-> <<>>, offs |-> <<>>]

RECURSIVE Dec(_, _, _), DecFields(_, _, _, _, _, _, _), SkipItems(_, _, _, _, _)

DecStruct(objs, key, b) ==
  IF Len(b) < objs[key].bytes THEN Err(Truncated)
  ELSE Got(objs[key].bytes, SubSeq(b, 1, objs[key].bytes), <<>>)

DecItem(objs, key, b) == IF objs[key].k = "struct" THEN DecStruct(objs, key, b) ELSE Dec(objs, key, b)

(* [ok, e, size] of n consecutive items.                                   *)
SkipItems(objs, key, b, n, at) ==
  IF n = 0 THEN [ok |-> TRUE, e |-> NoError, size |-> at]
  ELSE LET r == DecItem(objs, key, From(b, at + 1))
       IN IF ~r.ok THEN [ok |-> FALSE, e |-> r.e, size |-> 0]
          ELSE SkipItems(objs, key, b, n - 1, at + r.size)

FirstZero(b) == LET Z == {i \in 1..Len(b) : b[i] = 0}
                IN IF Z = {} THEN 0 ELSE CHOOSE i \in Z : \A j \in Z : i <= j

(* The content after a length prefix, c(n, rest) for a length of n         *)
Prefixed(f, b, c(_, _, _)) ==
  LET p == f.w \div 8
  IN IF Len(b) < p THEN Err(Truncated)
     ELSE LET n == DecWord(b, f.w, f.endian) IN c(n, From(b, p + 1), p)

DecBase(objs, m, f, b, vals) ==
  CASE f.kind = "fixed" ->
         IF Len(b) < f.ty.w \div 8 THEN Err(Truncated)
         ELSE LET w == DecWord(b, f.ty.w, f.endian)
              IN Got(f.ty.w \div 8, IF f.ty.c = "b" /\ ~IsZero(w) THEN OfInt(1) ELSE w, <<>>)
    [] f.kind = "struct" -> DecStruct(objs, f.ref, b)
    [] f.kind = "msg" -> LET r == Dec(objs, f.ref, b)
                         IN IF r.ok THEN Got(r.size, r.v, <<r.offs>>) ELSE r
    [] f.kind = "nstr" ->
         LET z == FirstZero(b)
         IN IF z = 0 THEN Err(Truncated)
            ELSE IF ~IsUtf8(SubSeq(b, 1, z - 1)) THEN Err(InvalidUtf8)
            ELSE Got(z, SubSeq(b, 1, z - 1), <<>>)
    [] f.kind = "vstr" ->
         LET c(n, rest, p) ==
               LET k == ToIntMax(n, Len(rest) + 1)
               IN IF k > Len(rest) THEN Err(Truncated)
                  ELSE IF ~IsUtf8(SubSeq(rest, 1, k)) THEN Err(InvalidUtf8)
                  ELSE Got(p + k, SubSeq(rest, 1, k), <<>>)
         IN Prefixed(f, b, c)
    [] f.kind = "array" ->
         LET c(n, rest, p) ==
               LET k == ToIntMax(n, Len(rest) + 1)
                   size == k * objs[f.ref].bytes
               IN IF size > Len(rest) THEN Err(Truncated)
                  ELSE Got(p + size, [n |-> n, d |-> SubSeq(rest, 1, size)], <<>>)
         IN Prefixed(f, b, c)
    [] f.kind = "list" ->
         \* a list which nothing follows is decoded lazily and takes the rest of the input
         LET c(n, rest, p) ==
               IF ~m.emb THEN Got(Len(b), [n |-> n, d |-> rest], <<>>)
               ELSE LET r == SkipItems(objs, f.ref, rest, ToIntMax(n, Len(rest) + 1), 0)
                    IN IF r.ok THEN Got(p + r.size, [n |-> n, d |-> SubSeq(rest, 1, r.size)], <<>>)
                       ELSE Err(r.e)
         IN Prefixed(f, b, c)
    [] f.kind = "payload" -> Got(Len(b), b, <<>>)
    [] f.kind = "union" ->
         LET u == objs[f.ref]
             raw == RawDiscriminant(u, vals[f.on])
             i == FindCase(u, raw)
         IN IF i = 0 THEN Err(BadDiscriminant(raw))
            ELSE IF u.cases[i].ref = "" THEN Got(0, [c |-> i, v |-> <<>>], <<>>)
            ELSE LET r == DecItem(objs, u.cases[i].ref, b)
                 IN IF r.ok THEN Got(r.size, [c |-> i, v |-> <<r.v>>], <<>>) ELSE r

DecField(objs, m, f, b, vals) ==
  IF ~f.opt THEN DecBase(objs, m, f, b, vals)
  ELSE IF b = <<>> THEN Err(Truncated)
  ELSE IF b[1] = 0 THEN Got(1, <<>>, <<>>)
  ELSE LET r == DecBase(objs, m, f, Tail(b), vals)
       IN IF r.ok THEN Got(r.size + 1, <<r.v>>, r.offs) ELSE r

DecFields(objs, m, b, i, at, vals, offs) ==
  IF i > Len(m.fields) THEN Got(at, vals, offs)
  ELSE LET r == DecField(objs, m, m.fields[i], From(b, at + 1), vals)
       IN IF ~r.ok THEN r
          ELSE DecFields(objs, m, b, i + 1, at + r.size, Append(vals, r.v),
                         Append(offs, <<at, at + r.size, r.offs>>))

Dec(objs, key, b) == DecFields(objs, objs[key], b, 1, 0, <<>>, <<>>)

----------------------------------------------------------------------------
(* What is observed of a value: lists and arrays are iterated.             *)

RECURSIVE Iterate(_, _, _, _, _)
(* The items of a list up to its end or its first fault: [items, e, size]  *)
Iterate(objs, key, d, n, items) ==
  IF n = 0 THEN [items |-> items, e |-> NoError, rest |-> d]
  ELSE LET r == DecItem(objs, key, d)
       IN IF ~r.ok THEN [items |-> items, e |-> r.e, rest |-> d]
          ELSE Iterate(objs, key, From(d, r.size + 1), n - 1, Append(items, [v |-> r.v, offs |-> r.offs]))

ListItems(objs, key, l) == Iterate(objs, key, l.d, ToIntMax(l.n, Len(l.d) + 1), <<>>)

(* with: lists are iterated with the offsets of their items.              *)
RECURSIVE Shown(_, _, _, _)
ShownItem(objs, key, v, with) == IF objs[key].k = "struct" THEN v ELSE Shown(objs, key, v, with)

ShownBase(objs, f, v, with) ==
  CASE f.kind = "msg" -> Shown(objs, f.ref, v, with)
    [] f.kind = "array" -> LET s == objs[f.ref].bytes
                           IN [n |-> v.n, items |-> [i \in 1..(Len(v.d) \div s) |-> SubSeq(v.d, (i - 1) * s + 1, i * s)]]
    [] f.kind = "list" -> LET r == ListItems(objs, f.ref, v)
                          IN [n |-> v.n, e |-> r.e, more |-> 0,
                              items |-> [i \in 1..Len(r.items) |-> Shown(objs, f.ref, r.items[i].v, with)],
                              offs |-> IF with THEN [i \in 1..Len(r.items) |-> r.items[i].offs] ELSE <<>>]
    [] f.kind = "union" -> LET case == objs[f.ref].cases[v.c]
                           IN [c |-> v.c, v |-> IF v.v = <<>> THEN <<>> ELSE <<ShownItem(objs, case.ref, v.v[1], with)>>]
    [] OTHER -> v

Shown(objs, key, vals, with) ==
  [i \in 1..Len(objs[key].fields) |->
    LET f == objs[key].fields[i]
    IN IF ~f.opt THEN ShownBase(objs, f, vals[i], with)
       ELSE IF vals[i] = <<>> THEN <<>>
       ELSE <<ShownBase(objs, f, vals[i][1], with)>>]

----------------------------------------------------------------------------
(* Values as they are built by a user: the items of a list are written one *)
(* after the other.  Result [ok, e, v].                                    *)

Made(v) == [ok |-> TRUE, e |-> NoError, v |-> v]
NotMade(e) == [ok |-> FALSE, e |-> e, v |-> <<>>]

RECURSIVE Make(_, _, _), MakeFields(_, _, _, _, _), WriteItems(_, _, _, _, _)

MakeItem(objs, key, v) == IF objs[key].k = "struct" THEN Made(v) ELSE Make(objs, key, v)

(* Writes items to the end of a list until one fails: [ok, e, v]           *)
WriteItems(objs, key, items, i, l) ==
  IF i > Len(items) THEN [ok |-> TRUE, e |-> NoError, v |-> l]
  ELSE LET it == MakeItem(objs, key, items[i])
           r == EncItem(objs, key, it.v)
       IN IF ~it.ok THEN [ok |-> FALSE, e |-> it.e, v |-> l]
          ELSE IF ~r.ok THEN [ok |-> FALSE, e |-> r.e, v |-> l]
          ELSE WriteItems(objs, key, items, i + 1, [n |-> Padded(NatAdd(Trim(l.n), <<1>>)), d |-> l.d \o r.b])

EmptyList == [n |-> Zero8, d |-> <<>>]

MakeBase(objs, f, v) ==
  CASE f.kind = "fixed" -> Made(Padded(v))
    [] f.kind = "msg" -> Make(objs, f.ref, v)
    [] f.kind \in {"array", "list"} -> WriteItems(objs, f.ref, v, 1, EmptyList)
    [] f.kind = "union" -> LET case == objs[f.ref].cases[v.c]
                           IN IF case.ref = "" THEN Made([c |-> v.c, v |-> <<>>])
                              ELSE LET r == MakeItem(objs, case.ref, v.v[1])
                                   IN IF r.ok THEN Made([c |-> v.c, v |-> <<r.v>>]) ELSE r
    [] OTHER -> Made(v)

MakeFields(objs, key, vals, i, acc) ==
  IF i > Len(objs[key].fields) THEN Made(acc)
  ELSE LET f == objs[key].fields[i]
           r == IF ~f.opt THEN MakeBase(objs, f, vals[i])
                ELSE IF vals[i] = <<>> THEN Made(<<>>)
                ELSE LET q == MakeBase(objs, f, vals[i][1]) IN IF q.ok THEN Made(<<q.v>>) ELSE q
       IN IF r.ok THEN MakeFields(objs, key, vals, i + 1, Append(acc, r.v)) ELSE r

Make(objs, key, vals) == MakeFields(objs, key, vals, 1, <<>>)
=============================================================================
