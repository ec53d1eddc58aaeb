------------------------------ MODULE TraceGen ------------------------------
(***************************************************************************)
(* Recorded runs of the generator into directories against module          *)
(* Generation.  files are the files of every directory, known maps         *)
(* contents to the identity of what was observed.                          *)
(*                                                                         *)
(* A trace is a sequence of runs [ps, opts, ok, res, protos, files, env,   *)
(* build, dir]; files are [name, id, mod, inc] where name is               *)
(* <<protocol, file>>, mod and inc the module and the files an umbrella    *)
(* includes.                                                               *)
(***************************************************************************)
EXTENDS Generation, SequencesExt, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACES).traces

VARIABLES t, i, files, known
vars == <<t, i, files, known>>

Init == t \in 1..Len(Traces) /\ i = 0 /\ files = NoFiles /\ known = NoFiles

In(dir) == IF dir \in DOMAIN files THEN files[dir] ELSE NoFiles

Judge(asp, ok) ==
  IF ok THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> t, i |-> i + 1, asp |-> asp]))

Names(ev) == {ev.files[k].name : k \in 1..Len(ev.files)}
Observed(ev, f) == ev.files[CHOOSE k \in 1..Len(ev.files) : ev.files[k].name = f]
Includes(o) == {o.inc[k] : k \in 1..Len(o.inc)}

(* An umbrella names the directory.                                        *)
Identity(ev, c) == IF c.part = "umbrella.rs" THEN [c |-> c, dir |-> ev.dir] ELSE [c |-> c]

Run(ev) ==
  LET next == Generate(In(ev.dir), ev.ps, ev.opts, ev.ok)
      there == Names(ev) \cap DOMAIN next
      what(f) == Identity(ev, next[f])
      seen == [c \in {what(f) : f \in there} |-> Observed(ev, CHOOSE f \in there : what(f) = c).id]
  IN /\ Judge("result", ev.res = IF ev.ok THEN "ok" ELSE "err")
     /\ Judge("files", Names(ev) = DOMAIN next)
     \* equal contents are equal bytes, whatever was there before
     /\ Judge("content", \A f \in there : LET c == what(f) IN IF c \in DOMAIN known THEN known[c] = Observed(ev, f).id
                                                              ELSE seen[c] = Observed(ev, f).id)
     /\ \A f \in there : f[2] = "umbrella.rs" =>
          LET o == Observed(ev, f)
          IN Judge("umbrella", o.mod = f[1] /\ Len(o.inc) = Cardinality(Includes(o))
                               /\ Includes(o) = {<<f[1], x>> : x \in next[f].inc})
     /\ ev.ok =>
          IF ev.build
          THEN Judge("env", ev.env = [k \in 1..Len(ev.ps) |-> [name |-> ev.ps[k].upper, file |-> Umbrella(ev.ps[k].name)]])
          ELSE Judge("protos", ev.protos = [k \in 1..Len(ev.ps) |-> [name |-> ev.ps[k].name, file |-> Umbrella(ev.ps[k].name)]])
     /\ files' = (ev.dir :> next) @@ files
     /\ known' = known @@ seen

Next ==
  /\ i < Len(Traces[t].runs)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ Run(Traces[t].runs[i + 1])

Spec == Init /\ [][Next]_vars
=============================================================================
