------------------------------ MODULE MCPaths ------------------------------
(***************************************************************************)
(* All short histories of registrations.                                   *)
(***************************************************************************)
EXTENDS Paths, IOUtils, Json

Names == {"p", "P", "pq"}
Bases == {"", "a", "a::b"}
Depth == IF IOEnv.DEEP = "1" THEN 4 ELSE 3

VARIABLES hist, reg
vars == <<hist, reg>>

Init == hist = <<>> /\ reg = NoPaths
Next == /\ Len(hist) < Depth
        /\ \E n \in Names, b \in Bases, id \in 1..2 :
             /\ hist' = Append(hist, [n |-> n, b |-> b, id |-> id])
             /\ reg' = Register(reg, b, n, id)
Spec == Init /\ [][Next]_vars

(* The latest registration of a name is the one which counts, and those of *)
(* other names do not matter.                                              *)
Latest == \A k \in 1..Len(hist) :
            (\A j \in (k + 1)..Len(hist) : hist[j].n # hist[k].n) =>
              ByName(reg, hist[k].n) = hist[k].id /\ TypePath(reg, "::", hist[k].n, "S") = <<hist[k].b \o "::S">>
Known == DOMAIN reg = {hist[k].n : k \in 1..Len(hist)}

Export == PrintT("EXPORT " \o ToJson(hist))
=============================================================================
