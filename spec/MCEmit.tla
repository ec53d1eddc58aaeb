------------------------------- MODULE MCEmit -------------------------------
(***************************************************************************)
(* All generators which return a few files, over a few runs.               *)
(***************************************************************************)
EXTENDS Emission, IOUtils, Json

Menu == <<[ty |-> "Message", name |-> <<"m.x">>, data |-> "one"],
          [ty |-> "Structure", name |-> <<"s", "a">>, data |-> "two"],
          [ty |-> "Enum", name |-> <<"s", "b">>, data |-> "three"],
          [ty |-> "Union", name |-> <<"s">>, data |-> "four"],
          [ty |-> "MessageReading", name |-> <<"s", "t", "c">>, data |-> "five"],
          [ty |-> "MessageWriting", name |-> <<"m.x">>, data |-> "six"],
          [ty |-> "MessageReading", name |-> <<"r">>, data |-> "z"],
          [ty |-> "Structure", name |-> <<"umbrella.rs">>, data |-> "seven"]>>
Opts == <<[x \in {} |-> TRUE],
          [reads |-> TRUE, writes |-> TRUE],
          [structs |-> FALSE, reads |-> TRUE],
          [messages |-> FALSE, writes |-> TRUE, enums |-> FALSE, unions |-> FALSE]>>
Longest == IF IOEnv.DEEP = "1" THEN <<3, 2>> ELSE <<3, 1>>

VARIABLES runs, disk, ok
vars == <<runs, disk, ok>>

Lists(n) == UNION {[1..k -> 1..Len(Menu)] : k \in 0..n}
Gen(l, umb) == [name |-> "p", fail |-> FALSE, files |-> [k \in 1..Len(l) |-> Menu[l[k]]], umb |-> umb]

Init == runs = <<>> /\ disk = [x \in {} |-> ""] /\ ok = TRUE
Next == /\ ok /\ Len(runs) < 2
        /\ \E l \in Lists(Longest[Len(runs) + 1]), o \in 1..Len(Opts), umb \in {"default", "list"} :
             LET r == EmitRun(disk, <<Gen(l, umb)>>, Opts[o])
             IN /\ (Len(runs) = 1 => Len(runs[1].l) <= 2)
                /\ runs' = Append(runs, [l |-> l, o |-> o, umb |-> umb])
                /\ disk' = r.disk /\ ok' = r.ok
Spec == Init /\ [][Next]_vars

Latest == runs[Len(runs)]
Again == EmitRun(disk, <<Gen(Latest.l, Latest.umb)>>, Opts[Latest.o])

(* No file is below another, and a run repeated changes nothing.           *)
PrefixFree == \A p, q \in DOMAIN disk : ~Proper(p, q)
Idempotent == runs # <<>> /\ ok => Again.ok /\ Again.disk = disk
(* Everything a run was asked to write is there, nothing that was disabled *)
(* is new.                                                                 *)
Complete ==
  runs # <<>> /\ ok =>
    \A k \in 1..Len(Latest.l) :
      LET f == Menu[Latest.l[k]]
          path == <<"p">> \o f.name
          on == On(Opts[Latest.o], Option(f.ty)) /\ Len(f.data) > 1
      IN /\ on => path \in DOMAIN disk
         /\ Len(runs) = 1 /\ ~on => \A j \in 1..Len(Latest.l) : Menu[Latest.l[j]].name = f.name =>
              (On(Opts[Latest.o], Option(Menu[Latest.l[j]].ty)) /\ Len(Menu[Latest.l[j]].data) > 1)
              \/ path \notin DOMAIN disk \/ (Latest.umb = "list" /\ f.name = <<"umbrella.rs">>)
              \/ \E i \in 1..Len(Latest.l) : Menu[Latest.l[i]].name = f.name /\ disk[path] = Menu[Latest.l[i]].data

Menus == [k \in 1..Len(runs) |-> [opts |-> Opts[runs[k].o], gen |-> Gen(runs[k].l, runs[k].umb)]]
Export == runs = <<>> \/ PrintT("EXPORT " \o ToJson(Menus))
=============================================================================
