------------------------------ MODULE Compiler ------------------------------
(***************************************************************************)
(* The protocol compiler: which definitions it accepts, and the layout and *)
(* wire format it assigns to them.                                         *)
(*                                                                         *)
(* A session imports a sequence of protocols, then loads a sequence of     *)
(* protocols.  Every protocol is compiled declaration by declaration, in   *)
(* the order imports, enums, structs, unions, messages; a declaration only *)
(* sees the ones compiled before it in the same protocol and what the      *)
(* protocol imports from protocols registered before.  The first faulty    *)
(* declaration ends the session.                                           *)
(*                                                                         *)
(* Items is the sequence of steps of a session and Step performs one.      *)
(***************************************************************************)
EXTENDS Num

NoFun == [x \in {} |-> 0]
Has(f, x) == x \in DOMAIN f
Add(f, x, v) == (x :> v) @@ f

----------------------------------------------------------------------------
(* Sessions as sequences of steps                                          *)

ProtoItems(p, role, idx) ==
  <<[op |-> "open", proto |-> p.name, endian |-> p.endian, role |-> role \o ToString(idx)]>>
  \o [i \in 1..Len(p.imports) |-> [op |-> "import", d |-> p.imports[i]]]
  \o [i \in 1..Len(p.enums) |-> [op |-> "enum", d |-> p.enums[i]]]
  \o [i \in 1..Len(p.structs) |-> [op |-> "struct", d |-> p.structs[i]]]
  \o [i \in 1..Len(p.unions) |-> [op |-> "union", d |-> p.unions[i]]]
  \o [i \in 1..Len(p.messages) |-> [op |-> "message", d |-> p.messages[i]]]
  \o <<[op |-> "close", role |-> role]>>

Items(imports, loads) ==
  FlattenSeq([i \in 1..Len(imports) |-> ProtoItems(imports[i], "I", i)])
  \o FlattenSeq([i \in 1..Len(loads) |-> ProtoItems(loads[i], "L", i)])

NoEnv == [proto |-> "", endian |-> "little", role |-> "", enums |-> NoFun, structs |-> NoFun,
          unions |-> NoFun, messages |-> NoFun]

(* objs: every definition compiled so far by key, reg: the registered      *)
(* imports, emb: the messages which are followed by other data somewhere,  *)
(* done: the loaded protocols.                                             *)
Start == [ok |-> TRUE, why |-> "", objs |-> NoFun, reg |-> NoFun, env |-> NoEnv, emb |-> {},
          order |-> <<>>]

Fail(st, why) == [st EXCEPT !.ok = FALSE, !.why = why]
Key(env, name) == env.role \o ":" \o env.proto \o "." \o name

----------------------------------------------------------------------------
(* Enums                                                                   *)

MaxEnumValue == <<255, 255, 255, 255, 255, 255, 255, 127>>

EnumError(e) ==
  IF e.variants = <<>> THEN "empty enum"
  ELSE IF \E i, j \in 1..Len(e.variants) : i # j /\ e.variants[i].v = e.variants[j].v
       THEN "duplicate variant value"
  ELSE IF \E i \in 1..Len(e.variants) : ~NatLe(e.variants[i].v, MaxEnumValue)
       THEN "variant too large"
  ELSE ""

Variant(e, key) ==
  LET I == {i \in 1..Len(e.variants) : e.variants[i].k = key}
  IN IF I = {} THEN <<>> ELSE <<e.variants[CHOOSE i \in I : TRUE].v>>

(* The value can be stored in n bits.                                      *)
FitsBits(v, n) == v = LowBits(v, n)

----------------------------------------------------------------------------
(* Structures                                                              *)

Container(n) == IF n <= 8 THEN 8 ELSE IF n <= 16 THEN 16 ELSE IF n <= 32 THEN 32 ELSE 64
Bytes(n) == (n + 7) \div 8

(* Type of the typed accessors of a scalar.                                *)
ScalarType(t, n) ==
  CASE t = "boolean" -> [c |-> "b", w |-> 8]
    [] t = "float" -> [c |-> "f", w |-> IF n = 32 \/ n <= 16 THEN 32 ELSE 64]
    [] t = "signed" -> [c |-> "i", w |-> Container(n)]
    [] t = "unsigned" -> [c |-> "u", w |-> Container(n)]

(* A view is affine: value = raw * slope + offset, where slope and offset  *)
(* are fractions.  It has to be invertible with finite coefficients.       *)
Magnitude(x) == NatOf(IF x < 0 THEN -x ELSE x)
(* Whether a / b * 2^k < 2^limit                                           *)
Below(a, b, k, limit) ==
  IF k >= limit THEN NatLt(ShiftLeft(a, k - limit), b) ELSE NatLt(a, ShiftLeft(b, limit - k))
ViewError(v, n) ==
  LET limit == IF ScalarType("float", n).w = 32 THEN 128 ELSE 1024
      top == NatSub(ShiftLeft(<<1>>, n), <<1>>)
      d == Magnitude(v.b - v.a)
  IN CASE v.t = "range" -> IF v.a = v.b THEN "view not invertible"
                           ELSE IF Below(d, top, -v.k, limit) /\ Below(Magnitude(v.a), <<1>>, -v.k, limit)
                                   /\ Below(top, d, v.k, limit) THEN ""
                           ELSE "view not finite"
       [] v.t = "mult" -> IF v.a = 0 THEN "view not invertible"
                          ELSE IF Below(Magnitude(v.a), <<1>>, -v.k, limit) /\ Below(<<1>>, Magnitude(v.a), v.k, limit) THEN ""
                          ELSE "view not finite"

ScalarError(st, f, off) ==
  LET n == f.bits
      count == IF f.len = <<>> THEN 1 ELSE f.len[1]
  IN IF n < 1 \/ n > 64 THEN "unsupported width"
     ELSE IF count < 1 THEN "unsupported array length"
     ELSE IF count > 1 /\ f.view.t # "none" THEN "view on array"
     ELSE IF f.view.t = "enum" /\ f.t # "unsigned" THEN "enum view on other type"
     ELSE IF f.view.t = "enum" /\ ~Has(st.env.enums, f.view.ref) THEN "undefined enum"
     ELSE IF f.view.t = "enum" /\ \E i \in 1..Len(st.objs[st.env.enums[f.view.ref]].variants) :
               ~FitsBits(st.objs[st.env.enums[f.view.ref]].variants[i].v, n) THEN "enum does not fit"
     ELSE IF f.view.t \in {"range", "mult"} /\ f.t # "float" THEN "float view on other type"
     ELSE IF f.view.t \in {"range", "mult"} /\ ViewError(f.view, n) # "" THEN ViewError(f.view, n)
     ELSE IF f.view.t = "none" /\ f.t = "float" /\ n \notin {32, 64} THEN "float of unsupported width"
     ELSE IF count > 1 /\ n % 8 # 0 THEN "array of partial bytes"
     ELSE IF count > 1 /\ off % 8 # 0 THEN "unaligned array"
     ELSE IF count = 1 /\ (off % 8) + n > 8 * Bytes(n) THEN "unaligned field"
     ELSE ""

StructFieldError(st, f, off) ==
  IF f.t # "struct" THEN ScalarError(st, f, off)
  ELSE IF f.len # <<>> /\ f.len # <<1>> THEN "array of structures"
  ELSE IF f.view.t # "none" THEN "view on structure"
  ELSE IF ~Has(st.env.structs, f.ref) THEN "undefined structure"
  ELSE IF off % 8 # 0 THEN "unaligned structure"
  ELSE ""

CompiledStructField(st, f, off) ==
  LET count == IF f.len = <<>> THEN 1 ELSE f.len[1]
  IN IF f.t = "struct"
     THEN [name |-> f.name, kind |-> "struct", off |-> off, bits |-> st.objs[st.env.structs[f.ref]].bits,
           ref |-> st.env.structs[f.ref]]
     ELSE IF count > 1
     THEN [name |-> f.name, kind |-> "array", off |-> off, bits |-> f.bits * count, item |-> f.bits,
           n |-> count, ty |-> ScalarType(f.t, f.bits), endian |-> st.env.endian]
     ELSE [name |-> f.name, kind |-> "fixed", off |-> off, bits |-> f.bits,
           ty |-> ScalarType(f.t, f.bits), raw |-> Container(f.bits), endian |-> st.env.endian,
           view |-> [t |-> f.view.t, a |-> f.view.a, b |-> f.view.b, k |-> f.view.k,
                     ref |-> IF f.view.t = "enum" THEN st.env.enums[f.view.ref] ELSE ""]]

(* The order in which the bits of the last byte of some fields are used.   *)
RECURSIVE LastEndian(_, _)
LastEndian(objs, fields) ==
  IF fields = <<>> THEN ""
  ELSE LET f == fields[Len(fields)]
       IN IF f.kind = "struct" THEN LastEndian(objs, objs[f.ref].fields) ELSE f.endian

RECURSIVE StructFields(_, _, _, _, _)
StructFields(st, fields, i, off, acc) ==
  IF i > Len(fields) THEN [why |-> "", fields |-> acc, bits |-> off]
  ELSE LET why == StructFieldError(st, fields[i], off)
       IN IF why # "" THEN [why |-> why, fields |-> <<>>, bits |-> 0]
          ELSE LET f == CompiledStructField(st, fields[i], off)
               IN IF off % 8 # 0 /\ LastEndian(st.objs, acc) # LastEndian(st.objs, <<f>>)
                  THEN [why |-> "byte shared by two endiannesses", fields |-> <<>>, bits |-> 0]
                  ELSE StructFields(st, fields, i + 1, off + f.bits, Append(acc, f))

(* The scalars and arrays inside a structure, with their path and their    *)
(* bit offset from the start of the outermost structure.                   *)
RECURSIVE Leaves(_, _, _, _)
Leaves(objs, key, path, off) ==
  FlattenSeq([i \in 1..Len(objs[key].fields) |->
    LET f == objs[key].fields[i]
    IN IF f.kind = "struct" THEN Leaves(objs, f.ref, Append(path, f.name), off + f.off)
       ELSE <<[f EXCEPT !.off = off + @, !.name = f.name] @@ [path |-> path]>>])

----------------------------------------------------------------------------
(* Unions                                                                  *)

(* The leaf a discriminant path leads to, as a sequence of 0 or 1 fields.  *)
RECURSIVE Walk(_, _, _)
Walk(objs, key, parts) ==
  IF parts = <<>> THEN <<>>
  ELSE LET fields == objs[key].fields
           I == {i \in 1..Len(fields) : fields[i].name = parts[1]}
       IN IF I = {} THEN <<>>
          ELSE LET f == fields[CHOOSE i \in I : TRUE]
               IN CASE f.kind = "array" -> <<>>
                    [] f.kind = "fixed" -> IF Len(parts) = 1 THEN <<f>> ELSE <<>>
                    [] f.kind = "struct" -> LET r == Walk(objs, f.ref, Tail(parts))
                                            IN IF r = <<>> THEN r
                                               ELSE <<[r[1] EXCEPT !.off = @ + f.off]>>

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE DigitsAt(_, _, _)
DigitsAt(cc, i, acc) == IF i > Len(cc) THEN acc
                        ELSE DigitsAt(cc, i + 1, NatAdd(NatMul(acc, <<10>>), NatOf(cc[i] - 48)))

(* A decimal number with at most a sign: [ok, neg, mag]                    *)
ParseDecimal(cc, signed) ==
  LET sign == cc # <<>> /\ (cc[1] = 43 \/ (signed /\ cc[1] = 45))
      rest == IF sign THEN Tail(cc) ELSE cc
  IN IF rest = <<>> \/ \E i \in 1..Len(rest) : ~IsDigit(rest[i])
     THEN [ok |-> FALSE, neg |-> FALSE, mag |-> <<>>]
     ELSE [ok |-> TRUE, neg |-> sign /\ cc[1] = 45, mag |-> DigitsAt(rest, 1, <<>>)]

(* The raw bits a case stands for, as a sequence of 0 or 1 words.          *)
CaseValue(objs, leaf, case) ==
  IF leaf.view.t = "enum" THEN Variant(objs[leaf.view.ref], case.c)
  ELSE LET p == ParseDecimal(case.cc, leaf.ty.c = "i")
           n == leaf.bits
           half == ShiftLeft(<<1>>, n - 1)
           full == ShiftLeft(<<1>>, n)
       IN IF ~p.ok THEN <<>>
          ELSE IF leaf.ty.c # "i" THEN (IF NatLt(p.mag, full) THEN <<Padded(p.mag)>> ELSE <<>>)
          ELSE IF ~p.neg \/ p.mag = <<>> THEN (IF NatLt(p.mag, half) THEN <<Padded(p.mag)>> ELSE <<>>)
          ELSE IF NatLe(p.mag, half) THEN <<Padded(NatSub(full, p.mag))>> ELSE <<>>

(* Structures take precedence over messages.                               *)
Lookup(env, name) ==
  IF Has(env.structs, name) THEN <<env.structs[name]>>
  ELSE IF Has(env.messages, name) THEN <<env.messages[name]>>
  ELSE <<>>

UnionError(st, u) ==
  LET objs == st.objs
      root == u.disc[1]
      leaf == Walk(objs, st.env.structs[root], Tail(u.disc))
      value(i) == CaseValue(objs, leaf[1], u.cases[i])
  IN IF ~Has(st.env.structs, root) THEN "undefined discriminant structure"
     ELSE IF leaf = <<>> THEN "discriminant path"
     ELSE IF u.cases = <<>> THEN "empty union"
     ELSE IF leaf[1].ty.c = "f" THEN "float discriminant"
     ELSE IF \E i \in 1..Len(u.cases) : value(i) = <<>> THEN "union case value"
     ELSE IF \E i, j \in 1..Len(u.cases) : i # j /\ value(i) = value(j) THEN "duplicate union case"
     ELSE IF \E i \in 1..Len(u.cases) : u.cases[i].ref # "" /\ Lookup(st.env, u.cases[i].ref) = <<>>
          THEN "undefined case type"
     ELSE ""

CompiledUnion(st, u) ==
  LET objs == st.objs
      leaf == Walk(objs, st.env.structs[u.disc[1]], Tail(u.disc))[1]
      ref(i) == IF u.cases[i].ref = "" THEN "" ELSE Lookup(st.env, u.cases[i].ref)[1]
      msg(i) == ref(i) # "" /\ objs[ref(i)].k = "message"
  IN [k |-> "union", root |-> st.env.structs[u.disc[1]], path |-> Tail(u.disc), leaf |-> leaf,
      cases |-> [i \in 1..Len(u.cases) |->
                  [name |-> u.cases[i].name, v |-> CaseValue(objs, leaf, u.cases[i])[1], ref |-> ref(i)]],
      dyn |-> \E i \in 1..Len(u.cases) : msg(i) /\ objs[ref(i)].dyn,
      elem |-> \E i \in 1..Len(u.cases) : msg(i) /\ objs[ref(i)].elem,
      lt |-> \E i \in 1..Len(u.cases) : ref(i) # "" /\ (msg(i) => objs[ref(i)].lt)]

----------------------------------------------------------------------------
(* Messages                                                                *)

(* Width of the length prefix, in bits.                                    *)
PrefixWidth(max) ==
  IF FitsBits(max, 8) THEN 8 ELSE IF FitsBits(max, 16) THEN 16 ELSE IF FitsBits(max, 32) THEN 32 ELSE 64

(* A structure of one plain scalar of native width is that scalar.         *)
IsScalarStruct(s) ==
  /\ Len(s.fields) = 1
  /\ s.fields[1].kind = "fixed"
  /\ s.fields[1].view.t = "none"
  /\ s.fields[1].bits = s.fields[1].ty.w

RECURSIVE ZeroSized(_, _)
ZeroSized(objs, key) ==
  LET o == objs[key]
  IN IF o.k = "struct" THEN o.bytes = 0
     ELSE \A i \in 1..Len(o.fields) :
            /\ o.fields[i].kind \in {"struct", "msg"}
            /\ ~o.fields[i].opt
            /\ ZeroSized(objs, o.fields[i].ref)

(* The messages which may be stored in place of a field.                   *)
MessagesOf(objs, f) ==
  IF f.kind = "msg" THEN {f.ref}
  ELSE IF f.kind = "union"
       THEN {objs[f.ref].cases[i].ref : i \in {j \in 1..Len(objs[f.ref].cases) :
               objs[f.ref].cases[j].ref # "" /\ objs[objs[f.ref].cases[j].ref].k = "message"}}
  ELSE {}

HasPayload(objs, f) == f.kind = "payload" \/ \E m \in MessagesOf(objs, f) : objs[m].payload

RECURSIVE SetEmbedded(_, _, _)
SetEmbedded(objs, emb, todo) ==
  IF todo \subseteq emb THEN emb
  ELSE LET m == CHOOSE m \in todo : m \notin emb
           next == UNION {MessagesOf(objs, objs[m].fields[i]) : i \in 1..Len(objs[m].fields)}
       IN SetEmbedded(objs, emb \cup {m}, (todo \cup next))

MessageFieldError(st, prev, f) ==
  LET objs == st.objs
      r == Lookup(st.env, f.ref)
      on == {i \in 1..Len(prev) : prev[i].name = f.on}
      o == prev[CHOOSE i \in on : TRUE]
  IN CASE f.t = "item" -> IF r = <<>> THEN "undefined item type" ELSE ""
       [] f.t = "list" -> IF r = <<>> THEN "undefined item type"
                          ELSE IF ZeroSized(objs, r[1]) THEN "items without content"
                          ELSE IF objs[r[1]].k = "message" /\ objs[r[1]].payload THEN "payload in list"
                          ELSE ""
       [] f.t = "string" -> ""
       [] f.t = "payload" -> ""
       [] f.t = "union" -> IF on = {} THEN "undefined discriminant"
                           ELSE IF o.opt THEN "optional discriminant"
                           ELSE IF ~Has(st.env.unions, f.ref) THEN "undefined union"
                           ELSE IF o.kind # "struct" \/ o.ref # objs[st.env.unions[f.ref]].root
                                THEN "discriminant of other type"
                           ELSE ""

CompiledMessageField(st, prev, f) ==
  LET objs == st.objs
      r == Lookup(st.env, f.ref)[1]
      base == [name |-> f.name, opt |-> f.opt, endian |-> st.env.endian, dyn |-> FALSE, elem |-> FALSE,
               ref |-> "", w |-> 0, ty |-> [c |-> "u", w |-> 8], on |-> 0]
  IN CASE f.t = "item" /\ objs[r].k = "struct" /\ IsScalarStruct(objs[r]) ->
            [base EXCEPT !.endian = objs[r].fields[1].endian, !.ty = objs[r].fields[1].ty]
            @@ [kind |-> "fixed"]
       [] f.t = "item" /\ objs[r].k = "struct" /\ ~IsScalarStruct(objs[r]) ->
            [base EXCEPT !.ref = r] @@ [kind |-> "struct"]
       [] f.t = "item" /\ objs[r].k = "message" ->
            [base EXCEPT !.ref = r, !.dyn = objs[r].dyn, !.elem = objs[r].elem] @@ [kind |-> "msg"]
       [] f.t = "list" -> [base EXCEPT !.ref = r, !.w = PrefixWidth(f.max[1]), !.dyn = TRUE,
                                       !.elem = (objs[r].k = "message")]
            @@ [kind |-> IF objs[r].k = "message" THEN "list" ELSE "array"]
       [] f.t = "string" -> [base EXCEPT !.dyn = TRUE, !.w = IF f.max = <<>> THEN 0 ELSE PrefixWidth(f.max[1])]
            @@ [kind |-> IF f.max = <<>> THEN "nstr" ELSE "vstr"]
       [] f.t = "payload" -> [base EXCEPT !.dyn = TRUE, !.elem = TRUE] @@ [kind |-> "payload"]
       [] f.t = "union" ->
            LET u == objs[st.env.unions[f.ref]]
            IN [base EXCEPT !.opt = FALSE, !.ref = st.env.unions[f.ref], !.dyn = u.dyn, !.elem = u.elem,
                            !.on = CHOOSE i \in 1..Len(prev) : prev[i].name = f.on /\
                                     \A j \in 1..(i - 1) : prev[j].name # f.on]
               @@ [kind |-> "union"]

FieldLifetime(objs, f) ==
  f.kind \in {"struct", "nstr", "vstr", "array", "list", "payload"} \/
  (f.kind \in {"msg", "union"} /\ objs[f.ref].lt)

RECURSIVE MessageFields(_, _, _, _)
MessageFields(st, fields, i, acc) ==
  IF i > Len(fields) THEN [why |-> "", fields |-> acc]
  ELSE LET why == MessageFieldError(st, acc, fields[i])
       IN IF why # "" THEN [why |-> why, fields |-> <<>>]
          ELSE LET f == CompiledMessageField(st, acc, fields[i])
               IN IF (f.dyn \/ f.elem) /\ \E j \in 1..Len(acc) : acc[j].elem
                  THEN [why |-> "variable size after list or payload", fields |-> <<>>]
                  ELSE MessageFields(st, fields, i + 1, Append(acc, f))

MessageError(st, m) ==
  LET r == MessageFields(st, m.fields, 1, <<>>)
  IN IF r.why # "" THEN r.why
     ELSE IF \E i \in 1..(Len(r.fields) - 1) : HasPayload(st.objs, r.fields[i]) THEN "payload not last"
     ELSE ""

CompiledMessage(st, m) ==
  LET fields == MessageFields(st, m.fields, 1, <<>>).fields
      objs == st.objs
  IN [k |-> "message", fields |-> fields,
      dyn |-> \E i \in 1..Len(fields) : fields[i].dyn,
      elem |-> \E i \in 1..Len(fields) : fields[i].elem,
      payload |-> \E i \in 1..Len(fields) : HasPayload(objs, fields[i]),
      lt |-> \E i \in 1..Len(fields) : FieldLifetime(objs, fields[i])]

(* The messages which a new message makes followed by other data.          *)
NewEmbedded(key, m) ==
  {m.fields[i].ref : i \in {j \in 1..Len(m.fields) : m.fields[j].kind = "list"}}
  \cup (IF \E i \in 1..(Len(m.fields) - 1) : m.fields[i].elem THEN {key} ELSE {})

----------------------------------------------------------------------------
(* Steps                                                                   *)

Define(st, kind, name, obj) ==
  LET key == Key(st.env, name)
      o == obj @@ [proto |-> st.env.proto, name |-> name, role |-> st.env.role]
      st1 == [st EXCEPT !.objs = Add(@, key, o), !.order = Append(@, key)]
  IN CASE kind = "enum" -> [st1 EXCEPT !.env.enums = Add(@, name, key)]
       [] kind = "struct" -> [st1 EXCEPT !.env.structs = Add(@, name, key)]
       [] kind = "union" -> [st1 EXCEPT !.env.unions = Add(@, name, key)]
       [] kind = "message" -> [st1 EXCEPT !.env.messages = Add(@, name, key),
                                          !.emb = SetEmbedded(st1.objs, @, @ \cup NewEmbedded(key, o))]

ImportStep(st, d) ==
  IF ~Has(st.reg, d.p) THEN Fail(st, "undefined protocol")
  ELSE LET r == st.reg[d.p]
       IN IF Has(r.structs, d.t) THEN [st EXCEPT !.env.structs = Add(@, d.t, r.structs[d.t])]
          ELSE IF Has(r.enums, d.t) THEN [st EXCEPT !.env.enums = Add(@, d.t, r.enums[d.t])]
          ELSE IF Has(r.unions, d.t) THEN [st EXCEPT !.env.unions = Add(@, d.t, r.unions[d.t])]
          ELSE IF Has(r.messages, d.t) THEN [st EXCEPT !.env.messages = Add(@, d.t, r.messages[d.t])]
          ELSE Fail(st, "undefined import")

Step(st, it) ==
  CASE it.op = "open" -> [st EXCEPT !.env = [NoEnv EXCEPT !.proto = it.proto, !.role = it.role,
                            !.endian = IF it.endian = "" THEN "little" ELSE it.endian]]
    [] it.op = "close" -> IF it.role = "I" THEN [st EXCEPT !.reg = Add(@, st.env.proto, st.env)] ELSE st
    [] it.op = "import" -> ImportStep(st, it.d)
    [] it.op = "enum" -> LET why == EnumError(it.d)
                         IN IF why # "" THEN Fail(st, why)
                            ELSE Define(st, "enum", it.d.name, [k |-> "enum", variants |-> it.d.variants])
    [] it.op = "struct" -> LET r == StructFields(st, it.d.fields, 1, 0, <<>>)
                           IN IF r.why # "" THEN Fail(st, r.why)
                              ELSE Define(st, "struct", it.d.name,
                                     [k |-> "struct", fields |-> r.fields, bits |-> r.bits,
                                      bytes |-> Bytes(r.bits), endian |-> st.env.endian])
    [] it.op = "union" -> LET why == UnionError(st, it.d)
                          IN IF why # "" THEN Fail(st, why)
                             ELSE Define(st, "union", it.d.name, CompiledUnion(st, it.d))
    [] it.op = "message" -> LET why == MessageError(st, it.d)
                            IN IF why # "" THEN Fail(st, why)
                               ELSE Define(st, "message", it.d.name, CompiledMessage(st, it.d))

RECURSIVE RunFrom(_, _, _)
RunFrom(st, items, i) == IF i > Len(items) \/ ~st.ok THEN st ELSE RunFrom(Step(st, items[i]), items, i + 1)
RunSession(imports, loads) == RunFrom(Start, Items(imports, loads), 1)
=============================================================================
