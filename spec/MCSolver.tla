------------------------------ MODULE MCSolver ------------------------------
(***************************************************************************)
(* All sessions over a few small protocols with all solvers which do not   *)
(* know some of them.                                                      *)
(***************************************************************************)
EXTENDS Solver, IOUtils, Json

Names == {"a", "b"}
Types == [a |-> "Sa", b |-> "Sb"]
Imports == {<<>>} \cup {<<[p |-> n, t |-> Types[n]]>> : n \in Names} \cup {<<[p |-> "a", t |-> "Sb"]>>}
Count == IF IOEnv.DEEP = "1" THEN 4 ELSE 3

VARIABLES protos, hide, nopath
vars == <<protos, hide, nopath>>

Init == protos = <<>> /\ hide \in {<<>>, <<"a">>, <<"b">>} /\ nopath \in {<<>>, <<[p |-> "a", t |-> "Sa"]>>}
Next == /\ Len(protos) < Count
        /\ \E n \in Names, d \in Imports :
              /\ (IF d = <<>> THEN TRUE ELSE d[1].t # Types[n])      \* nothing is imported under the name of a type of one's own
              /\ protos' = Append(protos, [name |-> n, imports |-> d])
        /\ UNCHANGED <<hide, nopath>>
Spec == Init /\ [][Next]_vars

(* Protocol k has k bytes in the structure of its own, and uses what it    *)
(* imports.                                                                *)
Field(name, t, bits, ref) == [name |-> name, t |-> t, bits |-> bits, ref |-> ref, len |-> <<>>,
                              view |-> [t |-> "none", ref |-> "", a |-> 0, b |-> 0, k |-> 0]]
Full(k) ==
  LET p == protos[k]
      own == [name |-> Types[p.name], fields |-> [j \in 1..k |-> Field("f" \o ToString(j), "unsigned", 8, "")]]
      uses == [name |-> "H", fields |-> [j \in 1..Len(p.imports) |-> Field("x", "struct", 0, p.imports[j].t)]
                                        \o <<Field("y", "unsigned", 8, "")>>]
  IN [name |-> p.name, endian |-> "little", imports |-> p.imports, enums |-> <<>>, structs |-> <<own, uses>>,
      unions |-> <<>>, messages |-> <<>>]
All == [k \in 1..Len(protos) |-> Full(k)]
Ses(h, n) == [imports |-> SubSeq(All, 1, Len(All) - 1), loads |-> <<All[Len(All)]>>,
              bases |-> [k \in 1..(Len(All) - 1) |-> "base" \o ToString(k)], hide |-> h, nopath |-> n]

RECURSIVE RunSolver(_, _, _, _)
RunSolver(st, items, ev, i) == IF i > Len(items) \/ ~st.ok THEN st ELSE RunSolver(SolverStep(st, items[i], ev), items, ev, i + 1)
Run(h, n) == LET ev == Ses(h, n) IN RunSolver(Start, Session(ev), ev, 1)

Latest(k, name) == {j \in 1..(k - 1) : protos[j].name = name}
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x
(* The number of the protocol which declares type t, looked for in the     *)
(* protocol called p by protocol k; 0 if there is none                     *)
RECURSIVE Source(_, _)
Source(k, d) ==
  IF Latest(k, d.p) = {} THEN 0
  ELSE LET j == Highest(Latest(k, d.p))
       IN IF d.t = Types[d.p] THEN j
          ELSE IF \E m \in 1..Len(protos[j].imports) : protos[j].imports[m].t = d.t
               THEN Source(j, CHOOSE x \in {protos[j].imports[m] : m \in 1..Len(protos[j].imports)} : x.t = d.t)
               ELSE 0

(* A session is accepted exactly if every import leads to a declaration    *)
(* through protocols which the solver admits to know, and has a path; it   *)
(* means this declaration.                                                 *)
Exact == protos # <<>> =>
  LET r == Run(hide, nopath)
      imports == {<<k, d>> : k \in 1..Len(protos), d \in UNION {{protos[k].imports[m] : m \in 1..Len(protos[k].imports)} : k \in 1..Len(protos)}}
      real == {x \in imports : \E m \in 1..Len(protos[x[1]].imports) : protos[x[1]].imports[m] = x[2]}
  IN /\ r.ok <=> \A x \in real :
                   /\ Source(x[1], x[2]) # 0
                   /\ \A j \in 1..Len(hide) : x[2].p # hide[j]
                   /\ \A j \in 1..Len(nopath) : x[2] # nopath[j]
     /\ r.ok => \A j \in 1..Len(protos[Len(protos)].imports) :
                  Resolved(r, Ses(hide, nopath))[1][j] = Source(Len(protos), protos[Len(protos)].imports[j])

(* Knowing less never makes a session accepted.                            *)
Monotone == protos # <<>> => (Run(hide, nopath).ok => Run(<<>>, <<>>).ok)

Export == protos = <<>> \/ PrintT("EXPORT " \o ToJson(Ses(hide, nopath)))
=============================================================================
