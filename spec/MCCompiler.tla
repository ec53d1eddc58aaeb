----------------------------- MODULE MCCompiler -----------------------------
(***************************************************************************)
(* All structures or messages which consist of up to Model.depth of the    *)
(* fields Model.alts, in a protocol which imports Model.imports of         *)
(* Model.base: which of them are accepted, that the accepted ones are      *)
(* sound, and that nothing which is added to a rejected definition makes   *)
(* it acceptable.  Exports every definition for the real compiler.         *)
(***************************************************************************)
EXTENDS Sound, IOUtils, Json

Model == JsonDeserialize(IOEnv.MODEL)

Own == [name |-> "p", endian |-> "little", imports |-> Model.imports, enums |-> <<>>, structs |-> <<>>,
        unions |-> <<>>, messages |-> <<>>]
Base == LET items == Items(Model.base, <<Own>>)
        IN RunFrom(Start, SubSeq(items, 1, Len(items) - 1), 1)
ASSUME Base.ok

VARIABLES seq, st
vars == <<seq, st>>

Compiled(s) ==
  Step(Base, [op |-> Model.what,
              d |-> [name |-> "X", fields |-> [k \in 1..Len(s) |-> [Model.alts[s[k]] EXCEPT !.name = "f" \o ToString(k)]]]])

Export == PrintT("EXPORT " \o ToJson([seq |-> seq', ok |-> st'.ok, why |-> st'.why]))

Init == seq = <<>> /\ st = Compiled(<<>>)
Next == /\ Len(seq) < Model.depth
        /\ \E a \in 1..Len(Model.alts) : seq' = Append(seq, a)
        /\ st' = Compiled(seq')
        /\ Export
Spec == Init /\ [][Next]_vars

Sound == StructSound(st) /\ MessageSound(st) /\ FailureExplained(st)
RejectionFinal == [][~st.ok => ~st'.ok]_vars
=============================================================================
