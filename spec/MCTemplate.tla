----------------------------- MODULE MCTemplate -----------------------------
(***************************************************************************)
(* All templates of a few lines from a menu, and what is rendered from     *)
(* them.  Every state is exported as a script for the real engine.         *)
(***************************************************************************)
EXTENDS Template, IOUtils, Json

MaxLines == IF IOEnv.MAXLINES = "2" THEN 2 ELSE IF IOEnv.MAXLINES = "3" THEN 3 ELSE 4

A == <<97>>
B == <<98>>
V == <<118>>
Push(n) == PushMark \o n
(* x{v}y  {{{v}}}  {v:upper}}}{{  {w:none}  }}a{b:capitalize}  blank  text\r *)
Menu == <<Push(A), Push(B), PopMark,
          <<120, 123, 118, 125, 121>>,
          <<123, 123, 123, 118, 125, 125, 125>>,
          <<123>> \o V \o <<58>> \o Upper \o <<125, 125, 125, 123, 123>>,
          <<123, 119, 58, 110, 125>>,
          <<125, 125, 97, 123>> \o B \o <<58>> \o Capitalize \o <<125>>,
          <<>>,
          <<65, 13>>,
          <<195, 169, 123, 97, 125>>>>

VARIABLES lines
vars == <<lines>>

Text == FlattenSeq([i \in 1..Len(lines) |-> IF i = 1 THEN Menu[lines[i]] ELSE <<NL>> \o Menu[lines[i]]])

Init == lines = <<>>
Next == Len(lines) < MaxLines /\ \E k \in 1..Len(Menu) : lines' = Append(lines, k)
Spec == Init /\ [][Next]_vars

Tpl == Compile(Text, "default")

Var(s, key, v) == [op |-> "var", s |-> s, key |-> key, shown |-> v, path |-> <<>>, frags |-> <<>>]
Ren(s, path, frags) == [op |-> "render", s |-> s, key |-> <<>>, shown |-> <<>>, path |-> path, frags |-> frags]
New(s) == [op |-> IF s = 0 THEN "scope" ELSE "clone", s |-> s, key |-> <<>>, shown |-> <<>>, path |-> <<>>, frags |-> <<>>]
ToVar(s, path, frags, key) == [op |-> "tovar", s |-> s, key |-> key, shown |-> <<>>, path |-> path, frags |-> frags]

Value == <<195, 168, 122>>
Other == <<113, 87>>
Ops == <<Ren(0, <<>>, <<A>>), Var(0, V, Value), Ren(0, <<>>, <<A>>), Ren(0, A, <<B>>), Ren(0, A, <<A>>),
         New(0), Var(1, A, Other), ToVar(1, <<>>, <<A>>, B), Ren(1, <<>>, <<A>>), Ren(1, <<>>, <<B, A>>),
         New(1), New(0), Var(2, V, Other), Ren(2, <<>>, <<A>>), Ren(2, A, <<B, B>>), Ren(1, A, <<B>>), Ren(3, <<>>, <<B>>),
         Ren(0, <<>>, <<A>>), Ren(0, <<>>, <<>>)>>

(***************************************************************************)
(* What the engine guarantees                                              *)
(***************************************************************************)
Depth(f) == Cardinality({i \in 1..Len(f) : f[i] = Dot})

(* A line without braces is rendered as it is.                             *)
PlainText ==
  \A f \in DOMAIN Tpl.frags :
    LET r == Render(Tpl.frags, (V :> Value) @@ (A :> Value) @@ (B :> Value), <<>>, <<f>>)
    IN r.res = "ok" /\ (r.arg # <<>> => r.arg[Len(r.arg)] = NL)

(* Fragments come from the markers only, and an error comes from a line.   *)
FragmentsFromMarkers ==
  /\ Cardinality(DOMAIN Tpl.frags) <= Cardinality({i \in 1..Len(lines) : lines[i] = 3})
  /\ (Tpl.why # <<>> /\ Tpl.why[1].kind = "pop") => \E i \in 1..Len(lines) : lines[i] = 3

(* Scopes are copies: what happens in one is seen in no other.             *)
RECURSIVE Run(_, _)
Run(st, k) == IF k > Len(Ops) THEN st ELSE Run(Do(st, Ops[k]).st, k + 1)
ScopesSeparate ==
  LET st == Run(Opened(Text, "default"), 1)
  IN (Tpl.why = <<>> /\ ~Tpl.vague) =>
       /\ st.tvars = (V :> Value)
       /\ st.scopes[3] = (V :> Value)
       /\ st.scopes[1][V] = Value

Export == PrintT("EXPORT " \o ToJson([text |-> Text, map |-> "default", ops |-> Ops]))
=============================================================================
