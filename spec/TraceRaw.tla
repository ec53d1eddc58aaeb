------------------------------ MODULE TraceRaw ------------------------------
(***************************************************************************)
(* Sessions of the compiler on files which need not be definitions.  A     *)
(* session goes from stage to stage and either finishes or ends with an    *)
(* error at the stage it has reached; nothing else can happen to it.       *)
(*                                                                         *)
(* TRACES is a file of observed sessions [id, res, stage].                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

Sessions == JsonDeserialize(IOEnv.TRACES)
Stages == <<"load", "compile", "generate">>

VARIABLES s, stage, end
vars == <<s, stage, end>>

Init == s \in 1..Len(Sessions) /\ stage = 1 /\ end = ""

Judge(ok) == IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> Sessions[s].id, asp |-> "panic"]))

(* The observed result decides where a session ends.                       *)
Next ==
  /\ end = ""
  /\ UNCHANGED s
  /\ LET o == Sessions[s]
     IN CASE o.res = "err" /\ o.stage = Stages[stage] -> end' = "err" /\ UNCHANGED stage
          [] o.res = "ok" /\ stage = Len(Stages) -> end' = "ok" /\ UNCHANGED stage
          [] stage < Len(Stages) /\ o.res \in {"ok", "err"} -> stage' = stage + 1 /\ UNCHANGED end
          [] OTHER -> end' = "stuck" /\ UNCHANGED stage /\ Judge(FALSE)

Spec == Init /\ [][Next]_vars
=============================================================================
