--------------------------- MODULE TraceTemplate ---------------------------
(***************************************************************************)
(* Recorded uses of the template engine against module Template.  A trace  *)
(* is [text, map, ops, res]: the results of the compilation and of every   *)
(* operation, or the marker of a panic.                                    *)
(***************************************************************************)
EXTENDS Template, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES t, i, st
vars == <<t, i, st>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ st = [tpl |-> Fresh, tvars |-> NoFrags, scopes |-> <<>>]

Judge(ok, want) ==
  IF ok THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i, asp |-> "template", want |-> want]))

T == Traces[t]
Crashed == T.panic
Result(k) == IF k <= Len(T.res) THEN T.res[k] ELSE Failure("missing", <<>>)

Steps == 1 + Len(T.ops)

Next ==
  /\ i < Steps
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ IF i = 0
     THEN LET o == Opened(T.text, T.map)
              want == IF o.tpl.why # <<>> THEN o.tpl.why[1] ELSE Success
          IN /\ Judge(~Crashed, Success)
             /\ (~Crashed /\ ~o.tpl.vague) => Judge(Result(1) = want, want)
             /\ st' = o
     ELSE IF Crashed \/ st.tpl.vague \/ st.tpl.why # <<>> THEN UNCHANGED st
     ELSE LET d == Do(st, T.ops[i])
          IN Judge(Result(i + 1) = d.r, d.r) /\ st' = d.st

Spec == Init /\ [][Next]_vars
=============================================================================
