----------------------------- MODULE TracePaths ----------------------------
(***************************************************************************)
(* Recorded uses of SimpleImportSolver [sep, ops] against module Paths.    *)
(* Every operation says what was seen: ids of protocols, paths of types.   *)
(***************************************************************************)
EXTENDS Paths, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES t, i, reg
vars == <<t, i, reg>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ reg = NoPaths

Judge(asp, ok) ==
  IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i + 1, asp |-> asp]))

Do(sep, ev) ==
  CASE ev.op = "register" -> reg' = Register(reg, ev.base, ev.n, ev.id)
    [] ev.op = "proto" -> UNCHANGED reg /\ Judge("protocol", ev.seen = ByName(reg, ev.n))
    [] ev.op = "path" -> UNCHANGED reg /\ Judge("path", ev.seen = TypePath(reg, sep, ev.n, ev.ty))

Next ==
  /\ i < Len(Traces[t].ops)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ Do(Traces[t].sep, Traces[t].ops[i + 1])

Spec == Init /\ [][Next]_vars
=============================================================================
