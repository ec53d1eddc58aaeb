-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* Runs the compiler specification on recorded sessions of the real one,   *)
(* one declaration per step, compares the verdicts and writes what was     *)
(* compiled for the drivers and the trace specifications.                  *)
(*                                                                         *)
(* CASES is a file of sessions [id, imports, loads, res, undef, out], res  *)
(* being the observed result (ok, err or panic) and undef whether it was   *)
(* reported as an undefined reference.                               *)
(***************************************************************************)
EXTENDS Sound, IOUtils, Json

Sessions == JsonDeserialize(IOEnv.CASES)

VARIABLES s, i, st
vars == <<s, i, st>>

ItemsOf == [k \in 1..Len(Sessions) |-> Items(Sessions[k].imports, Sessions[k].loads)]

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = Start

(* Global names of definitions: protocol.type                              *)
Global(key) == IF key = "" THEN "" ELSE st.objs[key].proto \o "." \o st.objs[key].name
GlobalView(f) == IF f.kind = "fixed" THEN [f EXCEPT !.view.ref = Global(@)] ELSE f

Exported(key) ==
  LET o == st.objs[key]
      ref(f) == IF Has(f, "ref") THEN [f EXCEPT !.ref = Global(@)] ELSE f
  IN CASE o.k = "enum" -> o
       [] o.k = "struct" -> [o EXCEPT !.fields = [j \in 1..Len(o.fields) |->
                              IF o.fields[j].kind = "struct" THEN ref(o.fields[j]) ELSE GlobalView(o.fields[j])]]
       [] o.k = "union" -> [o EXCEPT !.root = Global(@), !.leaf = GlobalView(@),
                                     !.cases = [j \in 1..Len(o.cases) |-> [o.cases[j] EXCEPT !.ref = Global(@)]]]
       [] o.k = "message" -> [o EXCEPT !.fields = [j \in 1..Len(o.fields) |-> ref(o.fields[j])]]
                             @@ [emb |-> key \in st.emb]

(* A message of another session, compiled there without knowing that other *)
(* data follows it.                                                        *)
Foreign == \E key \in st.emb : SubSeq(st.objs[key].role, 1, 1) = "I"
                               /\ \E j \in 1..Len(st.objs[key].fields) : st.objs[key].fields[j].kind = "list"

Result ==
  LET keys == SelectSeq(st.order, LAMBDA k : SubSeq(st.objs[k].role, 1, 1) = "L")
  IN [ok |-> st.ok, why |-> st.why, foreign |-> st.ok /\ Foreign,
      objs |-> IF ~st.ok THEN <<>> ELSE [j \in 1..Len(keys) |-> [key |-> Global(keys[j]), o |-> Exported(keys[j])]]]

Verdict == IF st.ok THEN "ok" ELSE "err"
Undefined(why) == Len(why) > 9 /\ SubSeq(why, 1, 9) = "undefined"

Finish ==
  LET c == Sessions[s]
  IN /\ JsonSerialize(c.out, Result)
     /\ IF c.res = Verdict THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> c.id, asp |-> IF c.res = "panic" THEN "panic" ELSE "verdict",
                                        want |-> Verdict, why |-> st.why, got |-> c.res]))
     (* A name which doesn't refer to anything is reported as that.       *)
     /\ IF c.res = "err" /\ ~st.ok /\ Undefined(st.why) /\ ~c.undef
        THEN PrintT("REJECT " \o ToJson([id |-> c.id, asp |-> "kind", want |-> "undefined reference", why |-> st.why,
                                        got |-> c.res]))
        ELSE TRUE

Next ==
  /\ i # -1
  /\ UNCHANGED s
  /\ IF i < Len(ItemsOf[s]) /\ st.ok
     THEN i' = i + 1 /\ st' = Step(st, ItemsOf[s][i + 1])
     ELSE i' = -1 /\ UNCHANGED st /\ Finish

Spec == Init /\ [][Next]_vars

(* What every accepted definition guarantees                               *)
StructsSound == StructSound(st)
UnionsSound == UnionSound(st)
MessagesSound == MessageSound(st)
FailureFinal == FailureExplained(st)
=============================================================================
