----------------------------- MODULE MCReading -----------------------------
(***************************************************************************)
(* A definition which has everything, and all documents which differ from  *)
(* it in up to DEPTH edits: a key is removed, repeated, unknown, moved, or *)
(* a value is replaced by any of a menu.                                   *)
(***************************************************************************)
EXTENDS Reading, TLC, IOUtils, Json

S(s) == [k |-> "str", s |-> s]
I(d) == [k |-> "int", neg |-> FALSE, d |-> d, num |-> ToString(d)]
NegOne == [k |-> "int", neg |-> TRUE, d |-> <<1>>, num |-> "-1"]
Half == [k |-> "float", whole |-> FALSE, num |-> "5/2"]
B(b) == [k |-> "bool", b |-> b]
Null == [k |-> "null"]
O(ks) == [k |-> "obj", o |-> [j \in 1..Len(ks) |-> [key |-> ks[j][1], v |-> ks[j][2]]]]
A(a) == [k |-> "arr", a |-> a]

Base ==
  O(<<<<"name", S("p")>>, <<"endianness", S("big")>>,
      <<"imports", A(<<O(<<<<"protocol", S("b")>>, <<"type", S("I")>>>>)>>)>>,
      <<"enums", A(<<O(<<<<"name", S("E")>>, <<"variants", O(<<<<"A", I(<<1>>)>>, <<"B", I(<<3>>)>>>>)>>>>)>>)>>,
      <<"structs", A(<<O(<<<<"name", S("S")>>, <<"fields", A(<<
           O(<<<<"name", S("a")>>, <<"info", O(<<<<"type", S("unsigned")>>, <<"bits", I(<<8>>)>>>>)>>,
               <<"view", O(<<<<"type", S("enum")>>, <<"name", S("E")>>>>)>>>>),
           O(<<<<"name", S("b")>>, <<"info", O(<<<<"type", S("signed")>>, <<"bits", I(<<1,6>>)>>>>)>>, <<"array_len", I(<<3>>)>>>>),
           O(<<<<"name", S("c")>>, <<"info", O(<<<<"type", S("float")>>, <<"bits", I(<<3,2>>)>>>>)>>,
               <<"view", O(<<<<"type", S("float-range")>>, <<"min", Half>>, <<"max", I(<<7>>)>>>>)>>>>),
           O(<<<<"name", S("d")>>, <<"info", O(<<<<"bits", I(<<8>>)>>, <<"type", S("boolean")>>>>)>>>>),
           O(<<<<"name", S("e")>>, <<"info", O(<<<<"type", S("struct")>>, <<"item_type", S("I")>>>>)>>>>)>>)>>>>)>>)>>,
      <<"unions", A(<<O(<<<<"name", S("U")>>, <<"discriminant", S("S.a")>>, <<"cases", A(<<
           O(<<<<"name", S("C")>>, <<"case", S("A")>>, <<"item_type", S("I")>>>>),
           O(<<<<"name", S("D")>>, <<"case", S("B")>>>>)>>)>>>>)>>)>>,
      <<"messages", A(<<O(<<<<"name", S("N")>>, <<"fields", A(<<
                          O(<<<<"name", S("t")>>, <<"info", O(<<<<"type", S("string")>>, <<"max_len", I(<<9>>)>>>>)>>>>)>>)>>>>),
                        O(<<<<"name", S("M")>>, <<"fields", A(<<
           O(<<<<"name", S("s")>>, <<"info", O(<<<<"type", S("item")>>, <<"item_type", S("S")>>>>)>>>>),
           O(<<<<"name", S("u")>>, <<"info", O(<<<<"type", S("union")>>, <<"on", S("s")>>, <<"item_type", S("U")>>>>)>>>>),
           O(<<<<"name", S("l")>>, <<"info", O(<<<<"type", S("list")>>, <<"max_len", I(<<5>>)>>, <<"item_type", S("I")>>>>)>>,
               <<"optional", B(TRUE)>>>>),
           O(<<<<"name", S("q")>>, <<"info", O(<<<<"type", S("payload")>>>>)>>>>)>>)>>>>)>>)>>>>)

Menu == <<S("S"), S("little"), S("signed"), S("string"), S(""), I(<<0>>), I(<<1,6>>), I(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>),
          I(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>), NegOne, Half, [k |-> "float", whole |-> TRUE, num |-> "8"],
          B(TRUE), B(FALSE), Null, O(<<>>), A(<<>>)>>

(* All places of a tree                                                    *)
RECURSIVE Places(_)
Kids(n) == IF n.k = "obj" THEN 1..Len(n.o) ELSE IF n.k = "arr" THEN 1..Len(n.a) ELSE {}
Kid(n, j) == IF n.k = "obj" THEN n.o[j].v ELSE n.a[j]
Places(n) == {<<>>} \cup UNION {{<<j>> \o p : p \in Places(Kid(n, j))} : j \in Kids(n)}

RECURSIVE At(_, _), Put(_, _, _)
At(n, p) == IF p = <<>> THEN n ELSE At(Kid(n, Head(p)), Tail(p))
Put(n, p, new) ==
  IF p = <<>> THEN new
  ELSE IF n.k = "obj" THEN [n EXCEPT !.o[Head(p)].v = Put(@, Tail(p), new)]
  ELSE [n EXCEPT !.a[Head(p)] = Put(@, Tail(p), new)]

Without(seq, j) == SubSeq(seq, 1, j - 1) \o SubSeq(seq, j + 1, Len(seq))
(* The edits of an object or of an array itself                            *)
Edits(n) ==
  IF n.k = "obj"
  THEN {[n EXCEPT !.o = Without(@, j)] : j \in Kids(n)}
       \cup {[n EXCEPT !.o = <<@[j]>> \o Without(@, j)] : j \in Kids(n)}
       \cup {[n EXCEPT !.o = Append(@, [key |-> "unknown", v |-> Null])]}
       \cup {[n EXCEPT !.o = Append(@, @[j])] : j \in Kids(n)}
  ELSE IF n.k = "arr"
  THEN {[n EXCEPT !.a = Without(@, j)] : j \in Kids(n)}
  ELSE {}

(* Small documents, of which the thorough check takes two edits            *)
Of(key, n) == O(<<<<"name", S("p")>>, <<key, A(<<n>>)>>>>)
Small == {Of("enums", Get(Base, "enums").a[1]), Of("unions", O(<<<<"name", S("U")>>, <<"discriminant", S("S.a")>>, <<"cases", A(<<>>)>>>>)),
          Of("imports", Get(Base, "imports").a[1]),
          Of("structs", O(<<<<"name", S("S")>>, <<"fields", A(<<
             O(<<<<"name", S("b")>>, <<"info", O(<<<<"type", S("signed")>>, <<"bits", I(<<1,6>>)>>>>)>>, <<"array_len", I(<<3>>)>>>>)>>)>>>>)),
          Of("messages", Get(Base, "messages").a[1])}

VARIABLES doc, edits, depth
Init == /\ edits = 0
        /\ IF IOEnv.DEEP = "1" THEN doc \in {Base} \cup Small ELSE doc = Base
        /\ depth = (IF doc = Base THEN 1 ELSE 2)
Next ==
  /\ edits < depth
  /\ UNCHANGED depth
  /\ edits' = edits + 1
  /\ \E p \in Places(doc) : \E new \in Edits(At(doc, p)) \cup {Menu[j] : j \in 1..Len(Menu)} : doc' = Put(doc, p, new)
Spec == Init /\ [][Next]_<<doc, edits, depth>>

(***************************************************************************)
(* The tokens of a tree, with or without trailing commas                   *)
(***************************************************************************)
T(k) == [k |-> k]
RECURSIVE Write(_, _), WriteFrom(_, _, _)
WriteFrom(n, j, trail) ==
  LET last == j = (IF n.k = "obj" THEN Len(n.o) ELSE Len(n.a))
      one == IF n.k = "obj" THEN <<[k |-> "name", s |-> n.o[j].key], T(":")>> \o Write(n.o[j].v, trail) ELSE Write(n.a[j], trail)
  IN IF Kids(n) = {} THEN <<>>
     ELSE one \o (IF last THEN (IF trail THEN <<T(",")>> ELSE <<>>) ELSE <<T(",")>> \o WriteFrom(n, j + 1, trail))
Write(n, trail) ==
  IF n.k = "obj" THEN <<T("{")>> \o WriteFrom(n, 1, trail) \o <<T("}")>>
  ELSE IF n.k = "arr" THEN <<T("[")>> \o WriteFrom(n, 1, trail) \o <<T("]")>>
  ELSE <<n>>

(* What is written is what is read.                                        *)
RoundTrip == \A trail \in BOOLEAN : LET p == Parse(Write(doc, trail)) IN p.ok /\ p.v = doc

(* No beginning of a document is a document.                               *)
Prefix == doc.k \in {"obj", "arr"} =>
          LET ts == Write(doc, FALSE)
          IN \A n \in (IF edits = 0 THEN 0..(Len(ts) - 1) ELSE {Len(ts) - 1, Len(ts) \div 2}) : ~Parse(SubSeq(ts, 1, n)).ok

(* The order of keys and the null of what may be absent mean nothing.      *)
RECURSIVE Turned(_)
Turned(n) ==
  IF n.k = "obj" THEN [n EXCEPT !.o = [j \in Kids(n) |-> [key |-> n.o[Len(n.o) + 1 - j].key, v |-> Turned(n.o[Len(n.o) + 1 - j].v)]]]
  ELSE IF n.k = "arr" THEN [n EXCEPT !.a = [j \in Kids(n) |-> Turned(n.a[j])]]
  ELSE n
Order == LET c == Check(doc, Definition)
         IN /\ Check(Turned(doc), Definition) = c
            /\ c = "ok" => Mean(Turned(doc), Definition) = Mean(doc, Definition)
Nulls == (Check(doc, Definition) = "ok" /\ doc.k = "obj") =>
         \A key \in {"endianness", "imports", "structs", "messages", "enums", "unions"} \ Keys(doc) :
            LET more == [doc EXCEPT !.o = Append(@, [key |-> key, v |-> Null])]
            IN Check(more, Definition) = "ok" /\ Mean(more, Definition) = Mean(doc, Definition)

Export == PrintT("EXPORT " \o ToJson([tokens |-> Write(doc, FALSE)]))
=============================================================================
