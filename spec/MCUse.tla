------------------------------- MODULE MCUse -------------------------------
(***************************************************************************)
(* All uses of one template, step by step: variables of the template, new  *)
(* scopes, copies of scopes, variables of scopes, rendering and rendering  *)
(* into a variable.  Every use of full length is exported as a script for  *)
(* the real engine, followed by rendering everything.                      *)
(***************************************************************************)
EXTENDS Template, IOUtils, Json

MaxOps == IF IOEnv.MAXOPS = "3" THEN 3 ELSE IF IOEnv.MAXOPS = "4" THEN 4 ELSE 5

A == <<97>>
B == <<98>>
C == <<99>>
V == <<118>>
W == <<119>>
Push(n) == PushMark \o n
Line(b) == Append(b, NL)

(* a: {v}-{w:capitalize};  a.b: {v};  a.b.c: {w};  a.b.c.d: [{v:upper}];    *)
(* b: plain                                                                *)
Text == Line(Push(A)) \o Line(<<123, 118, 125, 45, 123, 119, 58>> \o Capitalize \o <<125>>)
        \o Line(Push(B)) \o Line(<<123, 118, 125>>)
        \o Line(Push(C)) \o Line(<<123, 119, 125>>)
        \o Line(Push(<<100>>)) \o Line(<<91, 123, 118, 58>> \o Upper \o <<125, 93>>)
        \o Line(PopMark) \o Line(PopMark) \o Line(PopMark) \o Line(PopMark)
        \o Line(Push(B)) \o Line(<<112, 108, 97, 105, 110>>) \o Line(PopMark)

Var(s, key, v) == [op |-> "var", s |-> s, key |-> key, shown |-> v, path |-> <<>>, frags |-> <<>>]
Ren(s, path, frags) == [op |-> "render", s |-> s, key |-> <<>>, shown |-> <<>>, path |-> path, frags |-> frags]
New(s) == [op |-> IF s = 0 THEN "scope" ELSE "clone", s |-> s, key |-> <<>>, shown |-> <<>>, path |-> <<>>, frags |-> <<>>]
ToVar(s, path, frags, key) == [op |-> "tovar", s |-> s, key |-> key, shown |-> <<>>, path |-> path, frags |-> frags]

VARIABLES ops, st
vars == <<ops, st>>

One == <<195, 169, 120>>
Two == <<123, 118, 125>>
Three == <<113, 87>>

Offered ==
  LET n == Len(st.scopes)
  IN \* a scope borrows the template: its variables are set before
     (IF n = 0 THEN {Var(0, V, One), Var(0, V, <<>>), Var(0, W, Two)} ELSE {})
     \cup {New(0)} \cup {New(s) : s \in 1..n}
     \cup UNION {{Var(s, V, Three), Var(s, V, <<>>), Var(s, W, Three),
                  ToVar(s, <<>>, <<A, B>>, V), ToVar(s, A, <<B>>, W)} : s \in 1..n}

Init == ops = <<>> /\ st = Opened(Text, "default")
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Offered : ops' = Append(ops, op) /\ st' = Do(st, op).st
Spec == Init /\ [][Next]_vars

Watch ==
  FlattenSeq([k \in 1..(Len(st.scopes) + 1) |->
    <<Ren(k - 1, <<>>, <<A>>), Ren(k - 1, A, <<B>>), Ren(k - 1, A \o <<Dot>> \o B, <<C>>),
      Ren(k - 1, A \o <<Dot>> \o B \o <<Dot>> \o C, <<<<100>>>>), Ren(k - 1, <<>>, <<B, A>>)>>])

----------------------------------------------------------------------------
(* An operation on one set of variables leaves all other ones alone.       *)
Separate ==
  [][LET n == Len(st.scopes)
     IN /\ Len(st'.scopes) \in {n, n + 1}
        /\ st'.tpl = st.tpl
        /\ \A s \in 1..n : st'.scopes[s] # st.scopes[s] => ops'[Len(ops')].s = s
        /\ st'.tvars # st.tvars => ops'[Len(ops')].s = 0
        /\ (Len(st'.scopes) = n + 1) =>
             st'.scopes[n + 1] = VarsOf(st, ops'[Len(ops')].s)]_vars

(* What was set is there, even if it is empty.                             *)
LatestCounts ==
  ops # <<>> =>
    LET op == ops[Len(ops)]
    IN op.op = "var" => VarsOf(st, op.s)[op.key] = op.shown

(* Variables are not lost.                                                 *)
Kept == [][\A s \in 0..Len(st.scopes) : DOMAIN VarsOf(st, s) \subseteq DOMAIN VarsOf(st', s)]_vars

(* Rendering fails only for what does not exist.                           *)
Total ==
  \A s \in 0..Len(st.scopes) :
    LET r == Render(st.tpl.frags, VarsOf(st, s), <<>>, <<A>>)
    IN r.res = "ok" <=> {V, W} \subseteq DOMAIN VarsOf(st, s)

Export == Len(ops) = MaxOps => PrintT("EXPORT " \o ToJson([text |-> Text, map |-> "default", ops |-> ops \o Watch]))
=============================================================================
