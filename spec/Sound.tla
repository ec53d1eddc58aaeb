------------------------------- MODULE Sound -------------------------------
(***************************************************************************)
(* What every definition the compiler accepts guarantees, about the        *)
(* definition which a session st compiled last.                            *)
(***************************************************************************)
EXTENDS Compiler

Newest(st) == IF st.order = <<>> THEN <<>> ELSE <<st.objs[st.order[Len(st.order)]]>>

FieldBits(f) == {f.off + k : k \in 0..(f.bits - 1)}

(* Fields tile the structure, and the bytes a field is accessed through    *)
(* contain all of its bits.                                                *)
StructSound(st) ==
  \A j \in 1..Len(Newest(st)) : Newest(st)[j].k = "struct" =>
    LET o == Newest(st)[j]
    IN /\ o.bytes * 8 >= o.bits /\ o.bytes * 8 < o.bits + 8
       /\ \A a \in 1..Len(o.fields) :
            /\ o.fields[a].off = IF a = 1 THEN 0 ELSE o.fields[a - 1].off + o.fields[a - 1].bits
            /\ o.fields[a].kind = "fixed" =>
                 /\ o.fields[a].bits \in 1..64
                 /\ (o.fields[a].off % 8) + o.fields[a].bits <= 8 * Bytes(o.fields[a].bits)
                 /\ o.fields[a].off \div 8 + Bytes(o.fields[a].bits) <= o.bytes
            /\ o.fields[a].kind # "fixed" => o.fields[a].off % 8 = 0

UnionSound(st) ==
  \A j \in 1..Len(Newest(st)) : Newest(st)[j].k = "union" =>
    LET o == Newest(st)[j]
    IN /\ o.cases # <<>>
       /\ \A a \in 1..Len(o.cases) : FitsBits(o.cases[a].v, o.leaf.bits)
       /\ \A a, b \in 1..Len(o.cases) : a # b => o.cases[a].v # o.cases[b].v

(* Whatever takes the rest of the input is last, and what is followed by   *)
(* other data knows it.                                                    *)
MessageSound(st) ==
  \A j \in 1..Len(Newest(st)) : Newest(st)[j].k = "message" =>
    LET o == Newest(st)[j]
        key == st.order[Len(st.order)]
    IN /\ \A a \in 1..(Len(o.fields) - 1) :
            /\ ~HasPayload(st.objs, o.fields[a])
            /\ \A m \in MessagesOf(st.objs, o.fields[a]) :
                 (\E b \in 1..Len(st.objs[m].fields) : st.objs[m].fields[b].kind = "list") => m \in st.emb
            /\ o.fields[a].kind = "list" => key \in st.emb
       /\ \A a \in 1..Len(o.fields) : o.fields[a].kind \in {"list", "array"} =>
            /\ ~ZeroSized(st.objs, o.fields[a].ref)
            /\ o.fields[a].kind = "list" => o.fields[a].ref \in st.emb /\ ~st.objs[o.fields[a].ref].payload

(* A failed session has no further effect.                                 *)
FailureExplained(st) == ~st.ok => st.why # ""
=============================================================================
