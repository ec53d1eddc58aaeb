---------------------------- MODULE TraceSolver ----------------------------
(***************************************************************************)
(* Recorded sessions [imports, bases, loads, hide, nopath, res, kind,      *)
(* regs, used] against module Solver, one declaration per step.  used is   *)
(* which registration the generated code refers to for every import.       *)
(***************************************************************************)
EXTENDS Solver, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES s, i, st, regs
vars == <<s, i, st, regs>>

ItemsOf == [k \in 1..Len(Traces) |-> Session(Traces[k])]

Init == s \in 1..Len(Traces) /\ i = 0 /\ st = Start /\ regs = <<>>

Judge(asp, ok) ==
  IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> s, i |-> 1, asp |-> asp, why |-> st.why]))

Kind(why) == IF why = "solver" THEN "solver"
             ELSE IF Len(why) > 9 /\ SubSeq(why, 1, 9) = "undefined" THEN "undefined" ELSE "other"

Finish ==
  LET ev == Traces[s]
  IN /\ Judge("result", ev.res = IF st.ok THEN "ok" ELSE "err")
     /\ Judge("kind", (~st.ok /\ ev.res = "err") => ev.kind = Kind(st.why))
     /\ Judge("registered", ev.res # "panic" => ev.regs = regs)
     /\ Judge("used", (st.ok /\ ev.used # <<>>) => ev.used = Resolved(st, ev))

Next ==
  /\ i # -1
  /\ UNCHANGED s
  /\ IF i < Len(ItemsOf[s]) /\ st.ok
     THEN LET it == ItemsOf[s][i + 1]
          IN /\ i' = i + 1 /\ st' = SolverStep(st, it, Traces[s])
             /\ regs' = Told(st, it, Traces[s], regs)
     ELSE i' = -1 /\ UNCHANGED <<st, regs>> /\ Finish

Spec == Init /\ [][Next]_vars

(* Only imported protocols are registered, in order.                       *)
Ordered == \A k \in 1..Len(regs) : regs[k].base = Traces[s].bases[k] /\ regs[k].name = Traces[s].imports[k].name
=============================================================================
