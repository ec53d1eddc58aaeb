------------------------------ MODULE MCLoader ------------------------------
(***************************************************************************)
(* All histories of a loader over a few files, some of which fail.         *)
(***************************************************************************)
EXTENDS Reading, TLC, IOUtils, Json

Kinds == <<"base", "user", "malformed", "cut", "binary", "missing">>
Answers == <<"ok", "ok", "model", "model", "io", "io">>
Count == IF IOEnv.DEEP = "1" THEN 4 ELSE 3

VARIABLES ops, loader
vars == <<ops, loader>>

Init == ops = <<>> /\ loader = NewLoader
Next == /\ Len(ops) < Count
        /\ \E o \in {"load", "import"}, f \in 1..Len(Kinds) :
             LET op == [op |-> o, file |-> f, base |-> "crate"]
             IN ops' = Append(ops, op) /\ loader' = Request(loader, op, Answers[f])
Spec == Init /\ [][Next]_vars

(* A loader is what it would be without the requests which fail, and holds *)
(* everything else in the order of the requests.                           *)
RECURSIVE Replay(_, _, _)
Replay(l, os, j) == IF j > Len(os) THEN l ELSE Replay(Request(l, os[j], "ok"), os, j + 1)
Good_(op) == Answers[op.file] = "ok"
Unharmed == loader = Replay(NewLoader, SelectSeq(ops, Good_), 1)
Complete == Len(loader.imports) + Len(loader.loads) = Len(SelectSeq(ops, Good_))

Export == PrintT("EXPORT " \o ToJson([ops |-> ops]))
=============================================================================
