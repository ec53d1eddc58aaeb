------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* Definition files.  A file is a sequence of JSON5 tokens: the grammar    *)
(* below turns it into a tree, the shapes below say which trees are        *)
(* definitions, and what they mean.  A loader collects definitions.        *)
(*                                                                         *)
(* Tokens are [k |-> "{"], "}", "[", "]", ":", ",", "name" (an unquoted    *)
(* key), "str" [s], "int" [neg, d, num], "float" [whole, num], "bool" [b], *)
(* "null".  d are the decimal digits of an integer, num the exact value of *)
(* a number in a canonical notation.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(***************************************************************************)
(* Grammar                                                                 *)
(***************************************************************************)
Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Good(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Leaves == {"str", "int", "float", "bool", "null"}

RECURSIVE Value(_, _), Members(_, _, _), Elements(_, _, _)
Value(ts, i) ==
  IF i > Len(ts) THEN Fail
  ELSE IF ts[i].k = "{" THEN Members(ts, i + 1, <<>>)
  ELSE IF ts[i].k = "[" THEN Elements(ts, i + 1, <<>>)
  ELSE IF ts[i].k \in Leaves THEN Good(i + 1, ts[i])
  ELSE Fail

Members(ts, i, acc) ==
  IF i > Len(ts) THEN Fail
  ELSE IF ts[i].k = "}" THEN Good(i + 1, [k |-> "obj", o |-> acc])
  ELSE IF ts[i].k \notin {"str", "name"} THEN Fail
  ELSE IF i = Len(ts) THEN Fail
  ELSE IF ts[i + 1].k # ":" THEN Fail
  ELSE LET v == Value(ts, i + 2)
           all == Append(acc, [key |-> ts[i].s, v |-> v.v])
       IN IF ~v.ok THEN Fail
          ELSE IF v.i > Len(ts) THEN Fail
          ELSE IF ts[v.i].k = "," THEN Members(ts, v.i + 1, all)
          ELSE IF ts[v.i].k = "}" THEN Good(v.i + 1, [k |-> "obj", o |-> all])
          ELSE Fail

Elements(ts, i, acc) ==
  IF i > Len(ts) THEN Fail
  ELSE IF ts[i].k = "]" THEN Good(i + 1, [k |-> "arr", a |-> acc])
  ELSE LET v == Value(ts, i)
           all == Append(acc, v.v)
       IN IF ~v.ok THEN Fail
          ELSE IF v.i > Len(ts) THEN Fail
          ELSE IF ts[v.i].k = "," THEN Elements(ts, v.i + 1, all)
          ELSE IF ts[v.i].k = "]" THEN Good(v.i + 1, [k |-> "arr", a |-> all])
          ELSE Fail

Parse(ts) == LET v == Value(ts, 1) IN IF v.ok /\ v.i = Len(ts) + 1 THEN v ELSE Fail

(***************************************************************************)
(* Shapes.  `abs' is what an optional key means if it is absent or null.   *)
(***************************************************************************)
Str == [a |-> "str"]
Size == [a |-> "size"]
Num == [a |-> "num"]
Bool == [a |-> "bool"]
Word(ws) == [a |-> "word", ws |-> ws]
List(x) == [a |-> "list", x |-> x]
Map(x) == [a |-> "map", x |-> x]
Some(x) == [a |-> "some", x |-> x]
Object(ks) == [a |-> "obj", ks |-> ks]
Choice(cs) == [a |-> "choice", cs |-> cs]
Req(key, x) == [key |-> key, x |-> x, opt |-> FALSE, abs |-> <<>>]
Opt(key, x, abs) == [key |-> key, x |-> x, opt |-> TRUE, abs |-> abs]
Case_(s, ks) == [s |-> s, ks |-> ks]

FieldView == Choice(<<Case_("enum", <<Req("name", Str)>>),
                      Case_("float-range", <<Req("min", Num), Req("max", Num)>>),
                      Case_("float-multiplier", <<Req("multiplier", Num)>>)>>)
FieldInfo == Choice(<<Case_("signed", <<Req("bits", Size)>>), Case_("unsigned", <<Req("bits", Size)>>),
                      Case_("float", <<Req("bits", Size)>>), Case_("boolean", <<Req("bits", Size)>>),
                      Case_("struct", <<Req("item_type", Str)>>)>>)
StructField == Object(<<Req("name", Str), Req("info", FieldInfo), Opt("view", Some(FieldView), <<>>),
                        Opt("array_len", Some(Size), <<>>)>>)
StructShape == Object(<<Req("name", Str), Req("fields", List(StructField))>>)
MessageInfo == Choice(<<Case_("item", <<Req("item_type", Str)>>),
                        Case_("list", <<Req("max_len", Size), Req("item_type", Str)>>),
                        Case_("string", <<Opt("max_len", Some(Size), <<>>)>>),
                        Case_("payload", <<>>),
                        Case_("union", <<Req("on", Str), Req("item_type", Str)>>)>>)
MessageShape == Object(<<Req("name", Str),
                         Req("fields", List(Object(<<Req("name", Str), Req("info", MessageInfo),
                                                     Opt("optional", Bool, FALSE)>>)))>>)
UnionShape == Object(<<Req("name", Str), Req("discriminant", Str),
                       Req("cases", List(Object(<<Req("name", Str), Req("case", Str),
                                                  Opt("item_type", Some(Str), <<>>)>>)))>>)
EnumShape == Object(<<Req("name", Str), Req("variants", Map(Size))>>)
ImportShape == Object(<<Req("protocol", Str), Req("type", Str)>>)
Definition == Object(<<Req("name", Str), Opt("endianness", Word({"little", "big"}), "little"),
                       Opt("imports", List(ImportShape), <<>>), Opt("structs", List(StructShape), <<>>),
                       Opt("messages", List(MessageShape), <<>>), Opt("enums", List(EnumShape), <<>>),
                       Opt("unions", List(UnionShape), <<>>)>>)

(***************************************************************************)
(* Is a tree a definition?  "open" are trees about which the format says   *)
(* nothing: unknown or repeated keys, a tuple in place of an object, a     *)
(* number in place of a word, whole numbers which are written as fractions *)
(* or which do not fit 63 bits.                                            *)
(***************************************************************************)
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "ok"

Two63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
Two64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
RECURSIVE AtLeast(_, _, _)
AtLeast(d, e, i) == IF i > Len(d) THEN TRUE ELSE IF d[i] # e[i] THEN d[i] > e[i] ELSE AtLeast(d, e, i + 1)
Reaches(d, e) == IF Len(d) # Len(e) THEN Len(d) > Len(e) ELSE AtLeast(d, e, 1)

Keys(n) == {n.o[j].key : j \in 1..Len(n.o)}
Get(n, key) == n.o[CHOOSE j \in 1..Len(n.o) : n.o[j].key = key].v
Repeats(n) == Cardinality(Keys(n)) < Len(n.o)

RECURSIVE Check(_, _), CheckKeys(_, _, _)
CheckKeys(n, ks, more) ==
  IF Repeats(n) THEN "open"
  ELSE Worst({IF ks[j].key \notin Keys(n) THEN (IF ks[j].opt THEN "ok" ELSE "bad")
              ELSE IF ks[j].opt /\ Get(n, ks[j].key).k = "null" THEN "ok"
              ELSE Check(Get(n, ks[j].key), ks[j].x) : j \in 1..Len(ks)}
             \cup {IF Keys(n) \subseteq ({ks[j].key : j \in 1..Len(ks)} \cup more) THEN "ok" ELSE "open"})

Check(n, x) ==
  CASE x.a = "str" -> IF n.k = "str" THEN "ok" ELSE "bad"
    [] x.a = "size" -> IF n.k = "int" THEN (IF n.neg THEN (IF n.d = <<0>> THEN "open" ELSE "bad")
                                            ELSE IF Reaches(n.d, Two64) THEN "bad"
                                            ELSE IF Reaches(n.d, Two63) THEN "open" ELSE "ok")
                       ELSE IF n.k = "float" THEN (IF n.whole THEN "open" ELSE "bad") ELSE "bad"
    [] x.a = "num" -> IF n.k = "int" THEN (IF Reaches(n.d, Two63) THEN "open" ELSE "ok")
                      ELSE IF n.k = "float" THEN "ok" ELSE "bad"
    [] x.a = "bool" -> IF n.k = "bool" THEN "ok" ELSE "bad"
    [] x.a = "word" -> IF n.k = "str" THEN (IF n.s \in x.ws THEN "ok" ELSE "bad")
                       ELSE IF n.k \in {"int", "obj"} THEN "open" ELSE "bad"
    [] x.a = "some" -> Check(n, x.x)
    [] x.a = "list" -> IF n.k = "arr" THEN Worst({Check(n.a[j], x.x) : j \in 1..Len(n.a)}) ELSE "bad"
    [] x.a = "map" -> IF n.k # "obj" THEN "bad" ELSE IF Repeats(n) THEN "open"
                      ELSE Worst({Check(n.o[j].v, x.x) : j \in 1..Len(n.o)})
    [] x.a = "obj" -> IF n.k = "obj" THEN CheckKeys(n, x.ks, {}) ELSE IF n.k = "arr" THEN "open" ELSE "bad"
    [] x.a = "choice" ->
         IF n.k = "arr" THEN "open"
         ELSE IF n.k # "obj" THEN "bad"
         ELSE IF Repeats(n) THEN "open"
         ELSE IF "type" \notin Keys(n) THEN "bad"
         ELSE IF Get(n, "type").k = "int" THEN "open"
         ELSE IF Get(n, "type").k # "str" THEN "bad"
         ELSE IF \E j \in 1..Len(x.cs) : x.cs[j].s = Get(n, "type").s
              THEN CheckKeys(n, x.cs[CHOOSE j \in 1..Len(x.cs) : x.cs[j].s = Get(n, "type").s].ks, {"type"})
              ELSE "bad"

(***************************************************************************)
(* What a definition means                                                 *)
(***************************************************************************)
RECURSIVE Mean(_, _)
MeanKeys(n, ks) ==
  [j \in 1..Len(ks) |-> IF ks[j].key \notin Keys(n) THEN ks[j].abs
                        ELSE IF ks[j].opt /\ Get(n, ks[j].key).k = "null" THEN ks[j].abs
                        ELSE Mean(Get(n, ks[j].key), ks[j].x)]

Mean(n, x) ==
  CASE x.a \in {"str", "word"} -> n.s
    [] x.a = "size" -> n.d
    [] x.a = "num" -> n.num
    [] x.a = "bool" -> n.b
    [] x.a = "some" -> <<Mean(n, x.x)>>
    [] x.a = "list" -> [j \in 1..Len(n.a) |-> Mean(n.a[j], x.x)]
    [] x.a = "map" -> {<<n.o[j].key, Mean(n.o[j].v, x.x)>> : j \in 1..Len(n.o)}
    [] x.a = "obj" -> MeanKeys(n, x.ks)
    [] x.a = "choice" ->
         LET c == x.cs[CHOOSE j \in 1..Len(x.cs) : x.cs[j].s = Get(n, "type").s]
         IN <<c.s, MeanKeys(n, c.ks)>>

(***************************************************************************)
(* Files [kind, ts]: kind is "text" or the way in which it is unreadable.  *)
(* The answer to a request to load or to import a file:                    *)
(***************************************************************************)
Answer(f) ==
  IF f.kind # "text" THEN "io"
  ELSE LET p == Parse(f.ts)
       IN IF ~p.ok THEN "model"
          ELSE CASE Check(p.v, Definition) = "ok" -> "ok"
                 [] Check(p.v, Definition) = "bad" -> "model"
                 [] OTHER -> "open"
Meaning(f) == Mean(Parse(f.ts).v, Definition)

(***************************************************************************)
(* A loader keeps what was imported and what was loaded.  Requests which   *)
(* fail leave it as it was.                                                *)
(***************************************************************************)
NewLoader == [imports |-> <<>>, loads |-> <<>>]
Request(l, op, answer) ==
  IF answer # "ok" THEN l
  ELSE IF op.op = "import" THEN [l EXCEPT !.imports = Append(@, <<op.base, op.file>>)]
  ELSE [l EXCEPT !.loads = Append(@, op.file)]
=============================================================================
