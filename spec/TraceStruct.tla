---------------------------- MODULE TraceStruct ----------------------------
(***************************************************************************)
(* Recorded operations on structures against module Structure.             *)
(*                                                                         *)
(* One behaviour per trace, one event per step.  The state follows the     *)
(* observed one, so every event is judged on its own.                      *)
(***************************************************************************)
EXTENDS Structure, IOUtils, Json

Input == JsonDeserialize(IOEnv.TRACES)
Traces == Input.traces
Aspects == {Input.aspects[j] : j \in 1..Len(Input.aspects)}

LeavesOf == [t \in 1..Len(Traces) |-> Leaves(Input.plans[Traces[t].plan], Traces[t].key, <<>>, 0)]
SizeOf == [t \in 1..Len(Traces) |-> Input.plans[Traces[t].plan][Traces[t].key].bytes]

VARIABLES t, i, full, raws
vars == <<t, i, full, raws>>

Guard == 8
Inner(b) == SubSeq(b, Guard + 1, Len(b) - Guard)

Init == t \in 1..Len(Traces) /\ i = 0 /\ full = <<>> /\ raws = <<>>

Objs == Input.plans[Traces[t].plan]

(* If the aspect a is checked, ok has to hold.                             *)
Judge(ev, a, ok) ==
  IF a \notin Aspects THEN TRUE
  ELSE IF ok THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i + 1, asp |-> a, ev |-> ev, before |-> full]))

(* What the event changed: changed leaves and changed bytes.               *)
Changed(ch, k) == \E j \in 1..Len(ch) : ch[j][1] = k
Apply(seq, ch) ==
  IF ch = <<>> THEN seq
  ELSE [k \in 1..Len(seq) |-> IF Changed(ch, k) THEN ch[CHOOSE j \in 1..Len(ch) : ch[j][1] = k][2] ELSE seq[k]]

Others(ev) == \A j \in 1..Len(ev.ch) : ev.ch[j][1] = ev.leaf
Guards(ev) == \A j \in 1..Len(ev.by) : ev.by[j][1] > Guard /\ ev.by[j][1] <= Len(full) - Guard

(* The observed values are the ones of the bytes. Leaves which are not     *)
(* affected by the event were judged before.                               *)
Affected(ev, f, k) ==
  \/ Changed(ev.ch, k)
  \/ \E j \in 1..Len(ev.by) : LET p == ev.by[j][1] - Guard - 1
                              IN p >= f.off \div 8 /\ p <= (f.off + f.bits - 1) \div 8
Layout(ev, buf, now) ==
  LET leaves == LeavesOf[t]
      b == Inner(buf)
  IN \A k \in 1..Len(leaves) : (ev.op = "init" \/ Affected(ev, leaves[k], k)) => now[k] = ReadLeaf(b, leaves[k])

ScalarEvent(ev, f) ==
  LET cls == Class(f)
      arg == Padded(ev.arg)
      raw == raws'[ev.leaf]
      b == Inner(full)
  IN /\ Judge(ev, "panic", ev.res = "ok")
     /\ ev.res # "ok" \/
        /\ ev.op = "setraw" => Judge(ev, "rt", raw = LowBits(arg, f.bits))
        /\ ev.op = "set" => Judge(ev, IF cls = "plain" THEN "rt" ELSE cls \o "rt", StoredOk(Objs, f, arg, raw))
        /\ Judge(ev, IF cls = "plain" THEN "typed" ELSE cls \o "typed", TypedOk(Objs, f, raw, ev.typed))
        /\ IF ev.op = "get" THEN Judge(ev, "frame", ev.ch = <<>> /\ ev.by = <<>>)
           ELSE /\ Judge(ev, IF cls = "plain" THEN "frame" ELSE cls \o "frame", Others(ev))
                /\ Judge(ev, "store", Inner(full') = SetRaw(b, f, IF ev.op = "setraw" \/ cls = "float" THEN
                                                                    (IF ev.op = "setraw" THEN arg ELSE raw)
                                                                   ELSE IF cls = "enum" THEN Objs[f.view.ref].variants[arg[1]].v
                                                                   ELSE PlainBits(f, arg)))

ArrayEvent(ev, f) ==
  LET arg == Padded(ev.arg)
      b == Inner(full)
      k == ev.idx + 1
      inside == k <= f.n
      indexed == ev.op \in {"aget", "aset", "abyteset"}
  IN /\ Judge(ev, "arraypanic", ev.res = IF indexed /\ ~inside THEN "panic" ELSE "ok")
     /\ Judge(ev, "arrayframe", Others(ev))
     /\ IF ev.res # "ok" \/ (indexed /\ ~inside)
        THEN Judge(ev, "array", ev.by = <<>> /\ ev.ch = <<>>)
        ELSE CASE ev.op = "aset" ->
                    /\ Judge(ev, "array", raws'[ev.leaf] = [raws[ev.leaf] EXCEPT ![k] = ElementValue(f, ElementBits(f, arg))])
                    /\ Judge(ev, "arraystore", Inner(full') = SetElement(b, f, k, arg))
               [] ev.op = "abyteset" ->
                    /\ Judge(ev, "array", raws'[ev.leaf] = [raws[ev.leaf] EXCEPT ![k] = LowBits(arg, 8)])
                    /\ Judge(ev, "arraystore", Inner(full') = SetByte(b, f, k, arg))
               [] OTHER ->
                    /\ Judge(ev, "array", ev.by = <<>>)
                    /\ Judge(ev, "array", ev.val = CASE ev.op = "aget" -> raws[ev.leaf][k]
                                                     [] ev.op = "alen" -> <<f.n>>
                                                     [] ev.op = "aiter" -> raws[ev.leaf]
                                                     [] ev.op = "abytes" -> LeafBytes(b, f))

ConstsEvent(ev) ==
  LET n == SizeOf[t]
      zeros == [j \in 1..n |-> 0]
      first == SubSeq(ev.b, 1, n)
  IN /\ Judge(ev, "sizes", ev.res = "ok")
     /\ ev.res # "ok" \/
        /\ Judge(ev, "sizes", ev.const = n /\ ev.fixed = n /\ ev.stack = zeros)
        /\ Judge(ev, "sizes", ev.write = first)
        /\ Judge(ev, "sizes", ev.read.e.e = "none" /\ ev.read.size = n /\ ev.read.b = first)
        /\ Judge(ev, "sizes", ev.exact = ev.read)
        /\ Judge(ev, "sizes", Len(ev.short) = n /\ \A j \in 1..n : ev.short[j].e.e = "trunc")

Next ==
  /\ i < Len(Traces[t].events)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ LET ev == Traces[t].events[i + 1]
     IN IF ev.op = "consts"
        THEN UNCHANGED <<full, raws>> /\ ConstsEvent(ev)
        ELSE /\ full' = IF ev.op = "init" THEN ev.buf ELSE Apply(full, ev.by)
             /\ raws' = IF ev.op = "init" THEN ev.raws ELSE Apply(raws, ev.ch)
             /\ IF ev.res = "lost" THEN Judge(ev, "panic", FALSE)
                ELSE /\ Judge(ev, "layout", Layout(ev, full', raws'))
                     /\ ev.op # "init" =>
                          /\ Judge(ev, "guard", Guards(ev))
                          /\ LET f == LeavesOf[t][ev.leaf]
                             IN IF f.kind = "array" THEN ArrayEvent(ev, f) ELSE ScalarEvent(ev, f)

Spec == Init /\ [][Next]_vars
=============================================================================
