----------------------------- MODULE TraceWire -----------------------------
(***************************************************************************)
(* Recorded encodings and decodings of messages and unions, and recorded   *)
(* operations on lists and arrays, against module Wire.                    *)
(*                                                                         *)
(* One behaviour per trace, one event per step.  cur is the latest value   *)
(* which was encoded, list the list under construction.                    *)
(***************************************************************************)
EXTENDS Wire, Structure, IOUtils, Json

Input == JsonDeserialize(IOEnv.TRACES)
Traces == Input.traces
Aspects == {Input.aspects[j] : j \in 1..Len(Input.aspects)}

VARIABLES t, i, cur, list
vars == <<t, i, cur, list>>

NoList == [l |-> EmptyList, used |-> 0]
Init == t \in 1..Len(Traces) /\ i = 0 /\ cur = <<>> /\ list = NoList

Objs == Input.plans[Traces[t].plan]
MsgKey == Traces[t].key

Judge(ev, a, ok) ==
  IF a \notin Aspects THEN TRUE
  ELSE IF ok THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i + 1, asp |-> a, ev |-> ev]))

(* Which aspect a disagreement about success is about.                     *)
ErrorAspect(a, b) ==
  IF a.e = "panic" \/ b.e = "panic" THEN "panic"
  ELSE IF a.e = "trunc" \/ b.e = "trunc" THEN "trunc"
  ELSE IF a.e = "utf8" \/ b.e = "utf8" THEN "utf8"
  ELSE IF a.e = "disc" \/ b.e = "disc" THEN "disc"
  ELSE "refuse"

(* Errors which a property is about are judged under their own aspect, the *)
(* general one being "error".                                              *)
JudgeError(ev, got, want) ==
  IF got = want THEN TRUE
  ELSE /\ Judge(ev, "error", FALSE)
       /\ Judge(ev, ErrorAspect(got, want), FALSE)

KnownErrors == {"none", "trunc", "utf8", "disc", "io"}

----------------------------------------------------------------------------
(* Messages                                                                *)

EncEvent(ev) ==
  LET mk == Make(Objs, MsgKey, ev.v)
      r == Enc(Objs, MsgKey, mk.v)
  IN IF ~mk.ok THEN JudgeError(ev, ev.mk, mk.e) /\ UNCHANGED cur
     ELSE IF ev.mk # NoError THEN JudgeError(ev, ev.mk, NoError) /\ UNCHANGED cur
     ELSE /\ JudgeError(ev, ev.e, r.e)
          /\ (r.ok /\ ev.e = NoError) => Judge(ev, "bytes", ev.b = r.b)
          /\ Judge(ev, "again", ev.again)
          /\ Judge(ev, "again", ev.slow)
          /\ Judge(ev, "again", \A j \in 1..Len(ev.fails) : ev.fails[j].e = IoError /\ ev.fails[j].start)
          /\ Judge(ev, "size", ev.se = ev.e)
          /\ ev.e = NoError => Judge(ev, "size", ev.size = Len(ev.b))
          /\ cur' = IF r.ok THEN <<[v |-> mk.v, b |-> ev.b]>> ELSE <<>>

(* Whether the extent of a message is the rest of the input.               *)
RECURSIVE Open(_, _)
Open(objs, key) ==
  \E j \in 1..Len(objs[key].fields) :
    LET f == objs[key].fields[j]
        u == objs[f.ref]
    IN \/ f.kind = "payload"
       \/ f.kind = "list" /\ ~objs[key].emb
       \/ f.kind = "msg" /\ Open(objs, f.ref)
       \/ f.kind = "union" /\ \E c \in 1..Len(u.cases) :
            u.cases[c].ref # "" /\ objs[u.cases[c].ref].k = "message" /\ Open(objs, u.cases[c].ref)

RECURSIVE Tiles(_, _, _, _, _)
(* The ranges of the fields of a message follow each other up to size.     *)
Tiles(objs, key, offs, size, j) ==
  LET m == objs[key]
      at(k) == IF k = 0 THEN 0 ELSE offs[k][2]
      f == m.fields[j]
  IN IF j = 0 THEN Len(offs) = Len(m.fields) /\ at(Len(offs)) = size /\ Tiles(objs, key, offs, size, 1)
     ELSE IF j > Len(m.fields) THEN TRUE
     ELSE /\ offs[j][1] = at(j - 1)
          /\ offs[j][1] <= offs[j][2]
          /\ (f.kind = "msg" /\ offs[j][3] # <<>>) =>
               Tiles(objs, f.ref, offs[j][3][1], offs[j][2] - offs[j][1] - (IF f.opt THEN 1 ELSE 0), 0)
          /\ (f.kind = "msg" /\ ~f.opt) => offs[j][3] # <<>>
          /\ Tiles(objs, key, offs, size, j + 1)

DecEvent(ev) ==
  LET objs == Objs
      r == Dec(objs, MsgKey, ev.b)
      shown == Shown(objs, MsgKey, r.v, FALSE)
      back == Enc(objs, MsgKey, r.v)
      closed == ~Open(objs, MsgKey)
      was == cur[1]
  IN /\ Judge(ev, "panic", ev.e.e # "panic" /\ ev.oe.e # "panic")
     /\ Judge(ev, "total", ev.e.e \in KnownErrors /\ ev.oe.e \in KnownErrors
                           /\ ev.size <= Len(ev.b) /\ ev.osize <= Len(ev.b) /\ ~ev.runaway)
     /\ Judge(ev, "inside", ~ev.outside)
     /\ JudgeError(ev, ev.e, r.e)
     /\ (r.ok /\ ev.e = NoError) =>
          /\ Judge(ev, "value", ev.v = shown)
          /\ Judge(ev, "dsize", ev.size = r.size)
          /\ Judge(ev, "reenc", ev.re = back.e /\ ev.again = back.b)
          /\ Judge(ev, "size", back.ok => ev.rsize = Len(ev.again))
     \* with offsets
     /\ Judge(ev, "osame", ev.oe = ev.e)
     /\ (ev.e = NoError /\ ev.oe = NoError) =>
          /\ Judge(ev, "osame", ev.osize = ev.size)
          /\ Judge(ev, "tiles", Tiles(objs, MsgKey, ev.offs, ev.osize, 0))
          /\ r.ok => /\ Judge(ev, "osame", ev.ov = Shown(objs, MsgKey, r.v, TRUE))
                     /\ Judge(ev, "offs", ev.offs = r.offs)
     /\ (ev.tag = "round" /\ cur # <<>>) =>
          /\ Judge(ev, "round", ev.e = NoError /\ ev.v = Shown(objs, MsgKey, was.v, FALSE) /\ ev.again = was.b)
          /\ Judge(ev, "size", ev.e = NoError => ev.size = Len(was.b))
     /\ (ev.tag = "prefix" /\ closed) => Judge(ev, "prefix", ev.e = Truncated)
     /\ (ev.tag = "prefix" /\ ~closed) =>
          Judge(ev, "prefix", ev.e = r.e /\ (r.ok => ev.v = shown))
     /\ (ev.tag = "longer" /\ closed /\ cur # <<>>) =>
          Judge(ev, "longer", ev.e = NoError /\ ev.v = Shown(objs, MsgKey, was.v, FALSE) /\ ev.size = Len(was.b))

(* Values written one after the other.                                     *)
StreamEvent(ev) ==
  LET objs == Objs
      n == Len(ev.vs)
      mk == [j \in 1..n |-> Make(objs, MsgKey, ev.vs[j])]
      en == [j \in 1..n |-> Enc(objs, MsgKey, mk[j].v)]
      fine == \A j \in 1..n : mk[j].ok /\ en[j].ok
  IN (fine /\ ~Open(objs, MsgKey)) =>
       /\ Judge(ev, "stream", ev.fine)
       /\ Judge(ev, "stream", ev.b = FlattenSeq([j \in 1..n |-> en[j].b]))
       /\ (\A j \in 1..n : en[j].b # <<>>) =>
            Judge(ev, "stream", ev.got = [j \in 1..n |-> [e |-> NoError, size |-> Len(en[j].b),
                                                          v |-> Shown(objs, MsgKey, mk[j].v, FALSE)]])

----------------------------------------------------------------------------
(* Unions                                                                  *)

UnionWrite(u, root, v) ==
  LET raw == RawDiscriminant(u, root)
      case == u.cases[v.c]
  IN IF raw # case.v THEN Refuse(BadDiscriminant(raw))
     ELSE IF case.ref = "" THEN Out(<<>>)
     ELSE EncItem(Objs, case.ref, v.v[1])

UnionEncEvent(ev) ==
  LET objs == Objs
      u == objs[MsgKey]
      case == u.cases[ev.v.c]
      mk == IF case.ref = "" THEN Made([c |-> ev.v.c, v |-> <<>>])
            ELSE LET r == MakeItem(objs, case.ref, ev.v.v[1])
                 IN IF r.ok THEN Made([c |-> ev.v.c, v |-> <<r.v>>]) ELSE r
      set == WriteBits(ev.root, u.leaf.off, u.leaf.bits, u.leaf.endian, case.v)
      w1 == UnionWrite(u, ev.root, mk.v)
      w2 == UnionWrite(u, set, mk.v)
  IN IF ~mk.ok \/ ev.mk # NoError THEN JudgeError(ev, ev.mk, mk.e)
     ELSE /\ Judge(ev, "is", ev.is = <<ev.v.c>>)
          /\ Judge(ev, "setdisc", ev.set = set)
          /\ JudgeError(ev, ev.e, w1.e)
          /\ (w1.ok /\ ev.e = NoError) => Judge(ev, "bytes", ev.b = w1.b)
          /\ JudgeError(ev, ev.e2, w2.e)
          /\ (w2.ok /\ ev.e2 = NoError) => Judge(ev, "bytes", ev.b2 = w2.b)

UnionDecEvent(ev) ==
  LET objs == Objs
      u == objs[MsgKey]
      raw == RawDiscriminant(u, ev.root)
      c == FindCase(u, raw)
      ref == u.cases[c].ref
      r == IF c = 0 THEN Err(BadDiscriminant(raw))
           ELSE IF ref = "" THEN Got(0, [c |-> c, v |-> <<>>], <<>>)
           ELSE LET q == DecItem(objs, ref, ev.b) IN IF q.ok THEN Got(q.size, [c |-> c, v |-> <<q.v>>], <<>>) ELSE q
  IN /\ JudgeError(ev, ev.e, r.e)
     /\ (r.ok /\ ev.e = NoError) =>
          /\ Judge(ev, "is", ev.is = <<c>>)
          /\ Judge(ev, "dsize", ev.size = r.size)
          /\ Judge(ev, "value", ev.v = [c |-> c, v |-> IF ref = "" THEN <<>> ELSE <<ShownItem(objs, ref, r.v.v[1], FALSE)>>])

----------------------------------------------------------------------------
(* Lists and arrays                                                        *)

ListMsg == Traces[t].msg
ListField == Objs[ListMsg].fields[CHOOSE j \in 1..Len(Objs[ListMsg].fields) :
                                    Objs[ListMsg].fields[j].name = Traces[t].field]
Budget == Traces[t].budget

More(l, b) == [n |-> Padded(NatAdd(Trim(l.n), <<1>>)), d |-> l.d \o b]

(* Writes items one after the other: [l, used, e, torn]                    *)
RECURSIVE WriteAll(_, _, _, _)
WriteAll(ref, vs, j, s) ==
  IF j > Len(vs) THEN s
  ELSE LET r == EncItem(Objs, ref, MakeItem(Objs, ref, vs[j]).v)
       IN IF ~r.ok THEN [s EXCEPT !.e = r.e]
          ELSE IF s.used + Len(r.b) > Budget THEN [s EXCEPT !.e = IoError, !.torn = TRUE]
          ELSE WriteAll(ref, vs, j + 1, [s EXCEPT !.l = More(s.l, r.b), !.used = @ + Len(r.b)])

FirstUnmade(ref, vs) ==
  LET B == {j \in 1..Len(vs) : ~MakeItem(Objs, ref, vs[j]).ok}
  IN IF B = {} THEN NoError ELSE MakeItem(Objs, ref, vs[CHOOSE j \in B : \A k \in B : j <= k]).e

(* The first scalar of an item with all of its bits set to v.              *)
Poke(ref, b, v) ==
  LET f == Leaves(Objs, ref, <<>>, 0)[1]
  IN IF f.kind = "array" THEN SetElement(b, f, 1, v) ELSE SetRaw(b, f, v)

Item(ref, l, k) == LET s == Objs[ref].bytes IN SubSeq(l.d, (k - 1) * s + 1, k * s)
PokeItems(ref, l, ks, v) ==
  LET s == Objs[ref].bytes
      n == Len(l.d) \div s
  IN [l EXCEPT !.d = FlattenSeq([k \in 1..n |-> IF k \in ks THEN Poke(ref, Item(ref, l, k), v) ELSE Item(ref, l, k)])]

(* Header, content and items of the list after the event.                  *)
Stored(ev, l) ==
  LET f == ListField
      w == WithPrefix(l.n, f.w, f.endian, l.d)
  IN /\ Judge(ev, "items", ev.n = l.n)
     /\ JudgeError(ev, ev.we, w.e)
     /\ (w.ok /\ ev.we = NoError) => Judge(ev, "items", ev.b = w.b)
     /\ Judge(ev, "items", ev.shown = ShownBase(Objs, [f EXCEPT !.opt = FALSE], l, TRUE))

WriteEvent(ev) ==
  LET ref == ListField.ref
      vs == IF ev.op = "lwrite" THEN <<ev.v>> ELSE ev.v
      un == FirstUnmade(ref, vs)
      s == WriteAll(ref, vs, 1, [l |-> list.l, used |-> list.used, e |-> NoError, torn |-> FALSE])
  IN /\ Judge(ev, "panic", ev.res = "ok")
     /\ IF ev.res = "lost" THEN UNCHANGED list
        ELSE IF un # NoError THEN /\ JudgeError(ev, ev.mk, un)
                             /\ UNCHANGED list
                             /\ Stored(ev, list.l)
        ELSE /\ JudgeError(ev, ev.mk, NoError)
             /\ JudgeError(ev, ev.e, s.e)
             /\ list' = [l |-> s.l, used |-> s.used]
             \* storage which fails half way leaves a part of an item behind
             /\ IF s.torn \/ ev.torn THEN Judge(ev, "items", s.torn = ev.torn /\ ev.n = s.l.n)
                ELSE Stored(ev, s.l)

(* One item, many times. What the list shows is left to smaller lists.     *)
ManyEvent(ev) ==
  LET ref == ListField.ref
      f == ListField
      r == EncItem(Objs, ref, MakeItem(Objs, ref, ev.v).v)
      k == Len(r.b)
      l == [n |-> Padded(NatAdd(Trim(list.l.n), Trim(OfInt(ev.idx)))),
            d |-> list.l.d \o [j \in 1..(k * ev.idx) |-> r.b[((j - 1) % k) + 1]]]
      w == WithPrefix(l.n, f.w, f.endian, l.d)
  IN /\ Judge(ev, "panic", ev.res = "ok")
     /\ JudgeError(ev, ev.mk, NoError)
     /\ JudgeError(ev, ev.e, NoError)
     /\ list' = [l |-> l, used |-> list.used + k * ev.idx]
     /\ IF ev.res = "lost" THEN TRUE
        ELSE /\ Judge(ev, "items", ev.n = l.n)
             /\ JudgeError(ev, ev.we, w.e)
             /\ (w.ok /\ ev.we = NoError) => Judge(ev, "items", ev.b = w.b)

ArrayOpEvent(ev) ==
  LET ref == ListField.ref
      n == Len(list.l.d) \div Objs[ref].bytes
      inside == ev.idx < n
      v == Padded(ev.v)
      l == CASE ev.op = "lset" -> IF inside THEN PokeItems(ref, list.l, {ev.idx + 1}, v) ELSE list.l
             [] ev.op = "lfill" -> PokeItems(ref, list.l, 1..n, v)
             [] OTHER -> list.l
  IN /\ Judge(ev, "arraypanic", ev.res = IF ev.op \in {"lget", "lset"} /\ ~inside THEN "panic" ELSE "ok")
     /\ (ev.op = "lget" /\ inside /\ ev.res = "ok") => Judge(ev, "items", ev.val = Item(ref, list.l, ev.idx + 1))
     /\ ev.op = "lparts" =>
          Judge(ev, "parts", ev.val = IF Len(ev.v) = ev.idx * Objs[ref].bytes
                                      THEN <<ShownBase(Objs, [ListField EXCEPT !.opt = FALSE],
                                                       [n |-> OfInt(ev.idx), d |-> ev.v], TRUE)>>
                                      ELSE <<>>)
     /\ list' = [list EXCEPT !.l = l]
     /\ IF ev.res = "lost" THEN Judge(ev, "panic", FALSE) ELSE Stored(ev, l)

----------------------------------------------------------------------------
Next ==
  /\ i < Len(Traces[t].events)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ LET ev == Traces[t].events[i + 1]
     IN CASE ev.op = "enc" -> EncEvent(ev) /\ UNCHANGED list
          [] ev.op = "dec" -> DecEvent(ev) /\ UNCHANGED <<cur, list>>
          [] ev.op = "stream" -> StreamEvent(ev) /\ UNCHANGED <<cur, list>>
          [] ev.op = "uenc" -> UnionEncEvent(ev) /\ UNCHANGED <<cur, list>>
          [] ev.op = "udec" -> UnionDecEvent(ev) /\ UNCHANGED <<cur, list>>
          [] ev.op \in {"lwrite", "lwrites"} -> WriteEvent(ev) /\ UNCHANGED cur
          [] ev.op = "lmany" -> ManyEvent(ev) /\ UNCHANGED cur
          [] OTHER -> ArrayOpEvent(ev) /\ UNCHANGED cur

Spec == Init /\ [][Next]_vars
=============================================================================
