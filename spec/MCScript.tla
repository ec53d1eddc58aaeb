------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* All build scripts with a few calls, step by step.                       *)
(***************************************************************************)
EXTENDS Script, IOUtils, Json

MaxCalls == IF IOEnv.DEEP = "1" THEN 3 ELSE 2

P(name, id, needs, structs) == [name |-> name, upper |-> name, id |-> id, needs |-> needs, messages |-> 0, structs |-> structs,
                            enums |-> 1, unions |-> 0]
A == P("A", 1, <<>>, 1)
B == P("B", 2, <<"A">>, 1)
Call(do, good, p) == [do |-> do, good |-> good, p |-> p]
Calls == {Call(do, TRUE, p) : do \in {"load", "import"}, p \in {A, B}} \cup {Call(do, FALSE, A) : do \in {"load", "import"}}
Places == {[out |-> o, taken |-> <<>>] : o \in {"dir", "unset", "file"}}
          \cup {[out |-> "dir", taken |-> <<x>>] : x \in {<<"A">>, <<"B">>, <<"B", "umbrella.rs">>, <<"A", "structures.rs">>}}

VARIABLES s, r
vars == <<s, r>>

Init == /\ r = NoRun
        /\ \E n \in 0..MaxCalls : \E calls \in [1..n -> Calls], strict \in BOOLEAN, refuse \in BOOLEAN, place \in Places, on \in BOOLEAN :
             s = [calls |-> calls, strict |-> strict, refuse |-> refuse, out |-> place.out, taken |-> place.taken,
                  opts |-> [structs |-> on]]
Next == ~Ended(r) /\ r' = Step(s, r) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Configured == \E k \in 1..Len(r.log) : r.log[k] = "configure"

(* Nothing is announced unless everything is there, and a run which fails  *)
(* announces nothing.                                                      *)
Announced ==
  /\ r.phase = "failed" => r.lines = <<>>
  /\ r.lines # <<>> => \A k \in 1..Len(r.loaded) : Umbrella(r.loaded[k].name) \in DOMAIN r.files
  /\ r.phase = "done" => Len(r.lines) = Len(r.loaded)
(* Nothing is written before everything is compiled and configured, and    *)
(* configuring happens once, at the end of what is logged.                 *)
Ordered ==
  /\ r.files # NoFiles => Configured
  /\ \A k \in 1..Len(r.log) : r.log[k] = "configure" => k = Len(r.log)
  /\ Configured => Compiles(r)
(* A closure which fails is not survived.                                  *)
Refused == (r.phase = "done") => ~s.refuse /\ (s.strict => \A k \in 1..Len(s.calls) : s.calls[k].good)
Ends == <>Ended(r)

Export == r # NoRun \/ PrintT("EXPORT " \o ToJson(s))
=============================================================================
