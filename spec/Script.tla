------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The entry point of build scripts: a run of it step by step.             *)
(*                                                                         *)
(* A script s is what the program around it does and what it finds:        *)
(*   calls   what the closure for loading does, in order: do is "load" or  *)
(*           "import", good whether the file is a protocol p               *)
(*   strict  whether the closure gives up at the first call which fails    *)
(*   refuse  whether the closure fails in the end in any case              *)
(*   opts    what the closure for configuring switches                     *)
(*   out     the output directory: "dir", "unset" or "file"     *)
(*   taken   what is in the way of files: <<protocol>> is a file where the *)
(*           directory of that protocol belongs, <<protocol, file>> a      *)
(*           directory where a file belongs                                *)
(***************************************************************************)
EXTENDS Generation

NoRun == [phase |-> "load", at |-> 1, imported |-> <<>>, loaded |-> <<>>, log |-> <<>>,
          files |-> NoFiles, lines |-> <<>>]

Fail(r) == [r EXCEPT !.phase = "failed"]

(* One call of the closure for loading.                                    *)
LoadStep(s, r) ==
  IF r.at > Len(s.calls)
  THEN IF s.refuse THEN Fail(r) ELSE [r EXCEPT !.phase = "compile", !.at = 1]
  ELSE LET c == s.calls[r.at]
           next == [r EXCEPT !.at = @ + 1, !.log = Append(@, IF c.good THEN c.do ELSE c.do \o " failed")]
       IN IF c.good THEN IF c.do = "load" THEN [next EXCEPT !.loaded = Append(@, c.p)]
                         ELSE [next EXCEPT !.imported = Append(@, c.p)]
          ELSE IF s.strict THEN Fail(next) ELSE next

NamesOf(ps) == {ps[k].name : k \in 1..Len(ps)}
Knows(p, names) == \A k \in 1..Len(p.needs) : p.needs[k] \in names

(* Imported protocols may refer to the ones imported before, loaded ones   *)
(* to all imported ones.                                                   *)
Compiles(r) ==
  /\ \A k \in 1..Len(r.imported) : Knows(r.imported[k], NamesOf(SubSeq(r.imported, 1, k - 1)))
  /\ \A k \in 1..Len(r.loaded) : Knows(r.loaded[k], NamesOf(r.imported))

(* Whether something is in the way of the files of p.                      *)
Obstructed(s, p) ==
  \E k \in 1..Len(s.taken) :
    LET x == s.taken[k]
    IN x[1] = p.name /\ (Len(x) = 1 \/ x[2] \in Written(p, s.opts) \cup {"umbrella.rs"})

(* One protocol.  What a failure leaves of it is open.                     *)
GenerateStep(s, r) ==
  IF r.at > Len(r.loaded) THEN [r EXCEPT !.phase = "announce", !.at = 1]
  ELSE LET p == r.loaded[r.at]
       IN IF s.out = "file" \/ Obstructed(s, p) THEN Fail(r)
          ELSE [r EXCEPT !.at = @ + 1, !.files = Emit(@, p, s.opts)]

Step(s, r) ==
  CASE r.phase = "load" -> LoadStep(s, r)
    [] r.phase = "compile" -> IF Compiles(r) THEN [r EXCEPT !.phase = "configure"] ELSE Fail(r)
    [] r.phase = "configure" -> [r EXCEPT !.phase = IF s.out = "unset" THEN "failed" ELSE "generate",
                                          !.log = Append(@, "configure")]
    [] r.phase = "generate" -> GenerateStep(s, r)
    [] r.phase = "announce" ->
         IF r.at > Len(r.loaded) THEN [r EXCEPT !.phase = "done"]
         ELSE LET p == r.loaded[r.at]
              IN [r EXCEPT !.at = @ + 1, !.lines = Append(@, [name |-> p.upper, file |-> Umbrella(p.name)])]

Ended(r) == r.phase \in {"done", "failed"}

RECURSIVE RunOf(_, _)
RunOf(s, r) == IF Ended(r) THEN r ELSE RunOf(s, Step(s, r))
=============================================================================
