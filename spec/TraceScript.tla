----------------------------- MODULE TraceScript -----------------------------
(***************************************************************************)
(* Recorded runs of build scripts against module Script.                   *)
(***************************************************************************)
EXTENDS Script, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES t, r
vars == <<t, r>>

Init == t \in 1..Len(Traces) /\ r = NoRun

Judge(asp, ok) == IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> t, asp |-> asp, want |-> r']))

Observed == Traces[t].seen

(* Files of the protocol at which generating failed are open.              *)
Open == IF r'.phase = "failed" /\ Traces[t].out # "unset" /\ r'.at \in 1..Len(r'.loaded) /\ r'.log # <<>> /\ r'.log[Len(r'.log)] = "configure"
        THEN {r'.loaded[r'.at].name} ELSE {}
Names(S) == {f \in S : f[1] \notin Open}

(* When a missing output directory is noticed is open.                     *)
Begins(log, all) == Len(log) <= Len(all) /\ log = SubSeq(all, 1, Len(log))

Compare ==
  /\ Judge("exit", Observed.ok = (r'.phase = "done"))
  /\ Judge("log", Observed.log = r'.log \/ (Traces[t].out = "unset" /\ Begins(Observed.log, r'.log)))
  /\ Judge("lines", Observed.lines = r'.lines)
  /\ Judge("files", Names({Observed.files[k] : k \in 1..Len(Observed.files)}) = Names(DOMAIN r'.files))
  /\ Judge("strays", Observed.strays = <<>>)

Next == /\ ~Ended(r)
        /\ r' = Step(Traces[t], r)
        /\ UNCHANGED t
        /\ Ended(r') => Compare

Spec == Init /\ [][Next]_vars
=============================================================================
