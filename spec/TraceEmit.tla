----------------------------- MODULE TraceEmit -----------------------------
(***************************************************************************)
(* Recorded runs with generators of the user against module Emission.      *)
(*                                                                         *)
(* A trace is a sequence of runs [gens, opts, res, kind, asked, paths,     *)
(* files]; asked is what generate_umbrella was called with.  What a  *)
(* run which failed leaves behind is open, it ends its trace.              *)
(***************************************************************************)
EXTENDS Emission, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES t, i, disk
vars == <<t, i, disk>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ disk = [x \in {} |-> ""]

Judge(asp, ok) ==
  IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i + 1, asp |-> asp]))

Run(ev) ==
  LET r == EmitRun(disk, ev.gens, ev.opts)
      names == {ev.files[k].name : k \in 1..Len(ev.files)}
  IN /\ Judge("result", IF r.ok THEN ev.res = "ok" ELSE ev.res = "err" /\ ev.kind = r.why)
     /\ disk' = r.disk
     /\ (r.ok /\ ev.res = "ok") =>
          /\ Judge("asked", ev.asked = IF \E k \in 1..Len(ev.gens) : ev.gens[k].umb = "default" THEN <<>> ELSE r.asked)
          /\ Judge("paths", ev.paths = r.paths)
          /\ Judge("files", names = DOMAIN r.disk)
          /\ Judge("content", \A k \in 1..Len(ev.files) :
                     ev.files[k].name \in DOMAIN r.disk => ev.files[k].data = r.disk[ev.files[k].name])

Next ==
  /\ i < Len(Traces[t].runs)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ Run(Traces[t].runs[i + 1])

Spec == Init /\ [][Next]_vars
=============================================================================
