---------------------------- MODULE TraceReading ----------------------------
(***************************************************************************)
(* Recorded histories of loaders against module Reading.                   *)
(*                                                                         *)
(* TRACES is [files, traces]; a trace is [ops, first, final]: requests     *)
(* [op, file, base, res], the number of the trace which it is compared to, *)
(* and what was generated (or the stage which failed) in the end.          *)
(***************************************************************************)
EXTENDS Reading, TLC, IOUtils, Json

Input == JsonDeserialize(IOEnv.TRACES)
Files == Input.files
Traces == Input.traces

Answers == [f \in 1..Len(Files) |-> Answer(Files[f])]
Meanings == [f \in 1..Len(Files) |-> IF Answers[f] = "ok" THEN <<Meaning(Files[f])>> ELSE <<>>]

VARIABLES s, i, loader
vars == <<s, i, loader>>

Init == s \in 1..Len(Traces) /\ i = 0 /\ loader = NewLoader

Judge(asp, ok, want) ==
  IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> s, i |-> i + 1, asp |-> asp, want |-> want]))

(* What a loader holds in the end, without the notation of the files       *)
RECURSIVE RunOps(_, _, _)
RunOps(l, ops, j) == IF j > Len(ops) THEN l ELSE RunOps(Request(l, ops[j], ops[j].res), ops, j + 1)
Held(l) == [imports |-> [j \in 1..Len(l.imports) |-> <<l.imports[j][1], Meanings[l.imports[j][2]]>>],
            loads |-> [j \in 1..Len(l.loads) |-> Meanings[l.loads[j]]]]
Known(l) == /\ \A j \in 1..Len(l.imports) : Meanings[l.imports[j][2]] # <<>>
            /\ \A j \in 1..Len(l.loads) : Meanings[l.loads[j]] # <<>>

Next ==
  LET t == Traces[s]
  IN /\ i # -1
     /\ UNCHANGED s
     /\ IF i < Len(t.ops)
        THEN LET op == t.ops[i + 1]
                 want == Answers[op.file]
             IN /\ i' = i + 1
                /\ loader' = Request(loader, op, op.res)
                /\ Judge("answer", (IF want = "open" THEN op.res \in {"ok", "model"} ELSE op.res = want), want)
        ELSE /\ i' = -1 /\ UNCHANGED loader
             /\ LET f == RunOps(NewLoader, Traces[t.first].ops, 1)
                IN Judge("meaning", (IF ~Known(loader) \/ ~Known(f) THEN TRUE
                                     ELSE IF Held(loader) # Held(f) THEN TRUE
                                     ELSE t.final = Traces[t.first].final), Traces[t.first].final)

Spec == Init /\ [][Next]_vars

(* A loader holds nothing but what it was asked to load or to import.     *)
Bounded == i = -1 \/ Len(loader.imports) + Len(loader.loads) <= i
=============================================================================
