----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* Files written by the generator.  A protocol is given by the numbers of  *)
(* its enums, structs, unions and messages; the output directory maps      *)
(* files, named <<protocol, file>>, to their content.  The content of a    *)
(* part is known by what it was generated from.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Order in which the parts are generated                                  *)
Parts == <<[file |-> "messages.rs", of |-> "messages", opt |-> "messages"],
           [file |-> "messages_from_slice.rs", of |-> "messages", opt |-> "reads"],
           [file |-> "messages_write.rs", of |-> "messages", opt |-> "writes"],
           [file |-> "messages_offsets.rs", of |-> "messages", opt |-> "reads"],
           [file |-> "structures.rs", of |-> "structs", opt |-> "structs"],
           [file |-> "enums.rs", of |-> "enums", opt |-> "enums"],
           [file |-> "unions.rs", of |-> "unions", opt |-> "unions"]>>

(* Whether an option is on: reading and writing of messages are off unless *)
(* requested.                                                              *)
On(opts, name) == IF name \in DOMAIN opts THEN opts[name] ELSE name \notin {"reads", "writes"}

Written(p, opts) == {Parts[i].file : i \in {j \in 1..Len(Parts) : p[Parts[j].of] > 0 /\ On(opts, Parts[j].opt)}}

NoFiles == [x \in {} |-> <<>>]

Umbrella(name) == <<name, "umbrella.rs">>

(* What a run over protocol p leaves in the directory.                     *)
Emit(files, p, opts) ==
  LET w == Written(p, opts)
      new == [f \in {<<p.name, x>> : x \in w} \cup {Umbrella(p.name)} |->
                IF f = Umbrella(p.name) THEN [def |-> p.name, part |-> "umbrella.rs", inc |-> w]
                ELSE [def |-> ToString(p.id), part |-> f[2], inc |-> {}]]
  IN new @@ files

RECURSIVE EmitAll(_, _, _, _)
EmitAll(files, ps, opts, i) == IF i > Len(ps) THEN files ELSE EmitAll(Emit(files, ps[i], opts), ps, opts, i + 1)

(* A run which fails leaves the directory alone.                           *)
Generate(files, ps, opts, ok) == IF ok THEN EmitAll(files, ps, opts, 1) ELSE files
=============================================================================
