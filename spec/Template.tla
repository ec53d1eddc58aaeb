------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* The template engine of the code generators.  Text is a sequence of      *)
(* bytes.                                                                  *)
(*                                                                         *)
(* A template consists of lines; blank lines are skipped.                  *)
(*   #fragment push NAME  opens a fragment inside the current one          *)
(*   #fragment pop        closes the current one                           *)
(* Other lines are the content of the innermost open fragment: text,       *)
(* doubled braces which stand for single ones, and placeholders {name} or  *)
(* {name:function}.                                                        *)
(***************************************************************************)
EXTENDS Utf8, SequencesExt, Functions, FiniteSets, TLC

NL == 10
CR == 13
OpenB == 123
CloseB == 125
Dot == 46
Colon == 58

PushMark == <<35, 102, 114, 97, 103, 109, 101, 110, 116, 32, 112, 117, 115, 104, 32>>
PopMark == <<35, 102, 114, 97, 103, 109, 101, 110, 116, 32, 112, 111, 112>>

StartsWith(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p

Success == [res |-> "ok", kind |-> "", arg |-> <<>>]
Yields(b) == [res |-> "ok", kind |-> "", arg |-> b]
Failure(kind, arg) == [res |-> "err", kind |-> kind, arg |-> arg]

----------------------------------------------------------------------------
(* Text transformations                                                    *)

IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
(* ASCII and the letters U+00E0 to U+00FE                                  *)
UpperText(b) ==
  [i \in 1..Len(b) |-> IF IsLower(b[i]) THEN b[i] - 32
                       ELSE IF i > 1 /\ b[i - 1] = 195 /\ b[i] >= 160 /\ b[i] <= 190 /\ b[i] # 183 THEN b[i] - 32
                       ELSE b[i]]
LowerText(b) ==
  [i \in 1..Len(b) |-> IF IsUpper(b[i]) THEN b[i] + 32
                       ELSE IF i > 1 /\ b[i - 1] = 195 /\ b[i] >= 128 /\ b[i] <= 158 /\ b[i] # 151 THEN b[i] + 32
                       ELSE b[i]]
CapitalizeText(b) == IF b # <<>> /\ IsLower(b[1]) THEN <<b[1] - 32>> \o Tail(b) ELSE b

Upper == <<117, 112, 112, 101, 114>>
Lower == <<108, 111, 119, 101, 114>>
Capitalize == <<99, 97, 112, 105, 116, 97, 108, 105, 122, 101>>
(* Functions of the user of the engine: twice and gone                     *)
Twice == <<116, 119, 105, 99, 101>>
Gone == <<103, 111, 110, 101>>

(* What a map calls by which name; a name which is added again means the   *)
(* latest                                                                  *)
Own(names) == [n \in names |-> n]
FunctionsOf(map) ==
  LET defaults == Own({Upper, Lower, Capitalize})
  IN CASE map = "default" -> defaults
       [] map = "empty" -> Own({})
       [] map = "custom" -> Own({Twice, Gone})
       [] map = "both" -> Own({Twice, Gone}) @@ defaults
       [] map = "replaced" -> (Lower :> Twice) @@ (Twice :> Twice) @@ defaults
       [] map = "restored" -> defaults @@ (Twice :> Gone)

Apply(f, b) ==
  CASE f = Upper -> UpperText(b)
    [] f = Lower -> LowerText(b)
    [] f = Capitalize -> CapitalizeText(b)
    [] f = Twice -> b \o b
    [] f = Gone -> <<>>

----------------------------------------------------------------------------
(* Lines                                                                   *)

RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(b, i, start, acc) ==
  IF i > Len(b) THEN Append(acc, SubSeq(b, start, Len(b)))
  ELSE IF b[i] = NL THEN LinesFrom(b, i + 1, i + 1, Append(acc, SubSeq(b, start, i - 1)))
  ELSE LinesFrom(b, i + 1, start, acc)

StripCr(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Lines(b) ==
  LET all == LinesFrom(b, 1, 1, <<>>)
      cut == [i \in 1..Len(all) |-> StripCr(all[i])]
  IN SelectSeq(cut, LAMBDA l : l # <<>>)

(* The pieces of a line in order.  t: text, v: placeholder, x: neither, the *)
(* meaning of which is not specified.                                      *)
RECURSIVE Pieces(_, _, _, _)
Pieces(l, i, text, acc) ==
  LET flush == IF text = <<>> THEN acc ELSE Append(acc, [t |-> "t", b |-> text])
      next == IF i < Len(l) THEN l[i + 1] ELSE 0
      bad == Append(flush, [t |-> "x", b |-> <<>>])
  IN IF i > Len(l) THEN flush
     ELSE IF l[i] = OpenB /\ next = OpenB THEN Pieces(l, i + 2, <<>>, Append(acc, [t |-> "t", b |-> Append(text, OpenB)]))
     ELSE IF l[i] = CloseB /\ next = CloseB THEN Pieces(l, i + 2, <<>>, Append(acc, [t |-> "t", b |-> Append(text, CloseB)]))
     ELSE IF l[i] = CloseB THEN bad
     ELSE IF l[i] # OpenB THEN Pieces(l, i + 1, Append(text, l[i]), acc)
     ELSE LET E == {j \in (i + 1)..Len(l) : l[j] \in {OpenB, CloseB}}
              e == CHOOSE j \in E : \A k \in E : j <= k
          IN IF E = {} \/ l[e] = OpenB \/ e = i + 1 THEN bad
             ELSE Pieces(l, e + 1, <<>>, Append(flush, [t |-> "v", b |-> SubSeq(l, i + 1, e - 1)]))

(* name and function of a placeholder; no function is <<>>                 *)
Placeholder(b) ==
  LET C == {i \in 1..Len(b) : b[i] = Colon}
      c == CHOOSE i \in C : \A j \in C : i <= j
  IN IF C = {} THEN [name |-> b, fun |-> <<>>]
     ELSE [name |-> SubSeq(b, 1, c - 1), fun |-> <<SubSeq(b, c + 1, Len(b))>>]

(* Components of a line: [why, c], why being <<>> or the error             *)
RECURSIVE Components(_, _, _, _)
Components(funs, ps, i, acc) ==
  IF i > Len(ps) THEN [why |-> <<>>, c |-> acc]
  ELSE IF ~IsUtf8(ps[i].b) THEN [why |-> <<Failure("utf8", <<>>)>>, c |-> <<>>]
  ELSE IF ps[i].t = "t" THEN Components(funs, ps, i + 1, Append(acc, [t |-> "t", b |-> ps[i].b, fun |-> <<>>]))
  ELSE LET p == Placeholder(ps[i].b)
       IN IF p.fun # <<>> /\ p.fun[1] \notin DOMAIN funs THEN [why |-> <<Failure("function", p.fun[1])>>, c |-> <<>>]
          ELSE Components(funs, ps, i + 1, Append(acc, [t |-> "v", b |-> p.name, fun |-> [k \in 1..Len(p.fun) |-> funs[p.fun[k]]]]))

----------------------------------------------------------------------------
(* Compilation line by line.  stack: the open fragments, frags: the closed *)
(* ones by path, vague: something of unspecified meaning was seen          *)

NoFrags == [x \in {} |-> <<>>]
Fresh == [stack |-> <<>>, frags |-> NoFrags, vague |-> FALSE, why |-> <<>>]

Joined(names) == FlattenSeq([i \in 1..Len(names) |-> IF i = 1 THEN names[i] ELSE <<Dot>> \o names[i]])

CompileLine(st, funs, l) ==
  LET top == Len(st.stack)
  IN IF StartsWith(l, PushMark)
     THEN LET name == SubSeq(l, Len(PushMark) + 1, Len(l))
          IN IF ~IsUtf8(name) THEN [st EXCEPT !.why = <<Failure("utf8", <<>>)>>]
             ELSE [st EXCEPT !.stack = Append(@, [name |-> name, c |-> <<>>])]
     ELSE IF StartsWith(l, PopMark)
     THEN IF top = 0 THEN [st EXCEPT !.why = <<Failure("pop", <<>>)>>]
          ELSE [st EXCEPT !.frags = (Joined([i \in 1..top |-> st.stack[i].name]) :> st.stack[top].c) @@ @,
                          !.stack = SubSeq(@, 1, top - 1)]
     ELSE IF top = 0 THEN [st EXCEPT !.why = <<Failure("nofragment", <<>>)>>]
     ELSE LET ps == Pieces(l, 1, <<>>, <<>>)
              vague == \E i \in 1..Len(ps) : ps[i].t = "x"
              r == Components(funs, ps, 1, <<>>)
          IN IF vague THEN [st EXCEPT !.vague = TRUE]
             ELSE IF r.why # <<>> THEN [st EXCEPT !.why = r.why]
             ELSE [st EXCEPT !.stack[top].c = @ \o r.c \o <<[t |-> "t", b |-> <<NL>>, fun |-> <<>>]>>]

RECURSIVE CompileFrom(_, _, _, _)
CompileFrom(st, funs, ls, i) ==
  IF i > Len(ls) \/ st.why # <<>> \/ st.vague THEN st
  ELSE CompileFrom(CompileLine(st, funs, ls[i]), funs, ls, i + 1)
Compile(text, map) == CompileFrom(Fresh, FunctionsOf(map), Lines(text), 1)

----------------------------------------------------------------------------
(* Rendering with the given variables                                      *)

RECURSIVE RenderComponents(_, _, _, _)
RenderComponents(vars, cs, i, acc) ==
  IF i > Len(cs) THEN Yields(acc)
  ELSE IF cs[i].t = "t" THEN RenderComponents(vars, cs, i + 1, acc \o cs[i].b)
  ELSE IF cs[i].b \notin DOMAIN vars THEN Failure("variable", cs[i].b)
  ELSE RenderComponents(vars, cs, i + 1,
         acc \o (IF cs[i].fun = <<>> THEN vars[cs[i].b] ELSE Apply(cs[i].fun[1], vars[cs[i].b])))

RECURSIVE RenderFrom(_, _, _, _, _, _)
RenderFrom(frags, vars, path, names, i, acc) ==
  IF i > Len(names) THEN Yields(acc)
  ELSE LET full == IF path = <<>> THEN names[i] ELSE path \o <<Dot>> \o names[i]
       IN IF full \notin DOMAIN frags THEN Failure("fragment", full)
          ELSE LET r == RenderComponents(vars, frags[full], 1, <<>>)
               IN IF r.res = "err" THEN r ELSE RenderFrom(frags, vars, path, names, i + 1, acc \o r.arg)
Render(frags, vars, path, names) == RenderFrom(frags, vars, path, names, 1, <<>>)

----------------------------------------------------------------------------
(* Operations: tvars are the variables of the template, scopes the ones of *)
(* the scopes created so far.  Results are [st, r].                        *)

Opened(text, map) == [tpl |-> Compile(text, map), tvars |-> NoFrags, scopes |-> <<>>]

VarsOf(st, s) == IF s = 0 THEN st.tvars ELSE st.scopes[s]

Do(st, op) ==
  CASE op.op = "var" -> [st |-> IF op.s = 0 THEN [st EXCEPT !.tvars = (op.key :> op.shown) @@ @]
                                ELSE [st EXCEPT !.scopes[op.s] = (op.key :> op.shown) @@ @],
                         r |-> Success]
    [] op.op = "scope" -> [st |-> [st EXCEPT !.scopes = Append(@, st.tvars)], r |-> Success]
    [] op.op = "clone" -> [st |-> [st EXCEPT !.scopes = Append(@, st.scopes[op.s])], r |-> Success]
    [] op.op = "render" -> [st |-> st, r |-> Render(st.tpl.frags, VarsOf(st, op.s), op.path, op.frags)]
    [] op.op = "tovar" -> LET r == Render(st.tpl.frags, st.scopes[op.s], op.path, op.frags)
                          IN [st |-> IF r.res = "err" THEN st
                                     ELSE [st EXCEPT !.scopes[op.s] = (op.key :> r.arg) @@ @],
                              r |-> IF r.res = "err" THEN r ELSE Success]
=============================================================================
