------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* All histories of a few runs over the same protocols with all options.   *)
(***************************************************************************)
EXTENDS Generation, IOUtils, Json

MaxRuns == IF IOEnv.MAXRUNS = "1" THEN 1 ELSE 2
Options == {"reads", "writes", "messages", "structs", "enums", "unions"}
Protocols == <<[name |-> "x", id |-> 1, messages |-> 1, structs |-> 2, enums |-> 1, unions |-> 1],
               [name |-> "y", id |-> 2, messages |-> 0, structs |-> 1, enums |-> 0, unions |-> 0]>>

VARIABLES runs, files
vars == <<runs, files>>

Init == runs = <<>> /\ files = NoFiles
Next == /\ Len(runs) < MaxRuns
        /\ \E on \in SUBSET Options :
             LET opts == [o \in Options |-> o \in on]
             IN runs' = Append(runs, opts) /\ files' = Generate(files, Protocols, opts, TRUE)
Spec == Init /\ [][Next]_vars

(* Every umbrella includes existing files of its protocol, exactly those   *)
(* the last run wrote, and an earlier run is not noticed.                  *)
Sound ==
  runs # <<>> =>
    LET opts == runs[Len(runs)]
        fresh == Generate(NoFiles, Protocols, opts, TRUE)
    IN /\ \A f \in DOMAIN fresh : f \in DOMAIN files /\ files[f] = fresh[f]
       /\ \A k \in 1..Len(Protocols) :
            LET p == Protocols[k]
                u == files[Umbrella(p.name)]
            IN /\ \A x \in u.inc : <<p.name, x>> \in DOMAIN files
               /\ u.inc = Written(p, opts)
               /\ "messages_from_slice.rs" \in u.inc <=> "messages_offsets.rs" \in u.inc
               /\ (opts.reads = FALSE /\ opts.writes = FALSE) =>
                    u.inc \subseteq {"messages.rs", "structures.rs", "enums.rs", "unions.rs"}

Export == Len(runs) < MaxRuns \/ PrintT("EXPORT " \o ToJson(runs))
=============================================================================
