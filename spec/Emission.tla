------------------------------ MODULE Emission ------------------------------
(***************************************************************************)
(* Writing what an arbitrary generator produces.  disk maps the files      *)
(* below the output directory, named by the sequences of the components of *)
(* their path, to their content.                                           *)
(*                                                                         *)
(* A run handles the loaded protocols one after another; a generator is    *)
(* given by what it returns for each of them: [name, fail, files, umb]     *)
(* where files are [ty, name, data] and umb is how it makes umbrellas:     *)
(* "default" (none), "empty", "list" (names what it is given), "blank",    *)
(* "two" (two characters) or "fail".                                       *)
(***************************************************************************)
EXTENDS Generation, SequencesExt

Option(ty) == CASE ty = "Message" -> "messages" [] ty = "MessageReading" -> "reads" [] ty = "MessageWriting" -> "writes"
                [] ty = "Structure" -> "structs" [] ty = "Enum" -> "enums" [] ty = "Union" -> "unions"

Proper(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* There is a directory where the file would be, or a file where one of    *)
(* the directories around it would be.                                     *)
Blocked(disk, path) == \E q \in DOMAIN disk : Proper(path, q) \/ Proper(q, path)

Ok(disk) == [ok |-> TRUE, why |-> "", disk |-> disk, inc |-> <<>>]
Failed(r, why) == [r EXCEPT !.ok = FALSE, !.why = why]

Write(r, path, data) == IF Blocked(r.disk, path) THEN Failed(r, "io")
                        ELSE [r EXCEPT !.disk = (path :> data) @@ @, !.inc = Append(@, path)]

RECURSIVE WriteFiles(_, _, _, _, _)
WriteFiles(r, dir, files, opts, i) ==
  IF i > Len(files) \/ ~r.ok THEN r
  ELSE LET f == files[i]
       IN WriteFiles(IF On(opts, Option(f.ty)) /\ Len(f.data) > 1 THEN Write(r, <<dir>> \o f.name, f.data) ELSE r,
                     dir, files, opts, i + 1)

(* What is asked for an umbrella over, and the file it goes to             *)
UmbrellaText(how, name, inc) ==
  CASE how = "list" -> name \o ToString(inc)
    [] how = "blank" -> " \n\n"
    [] how = "two" -> "//"
    [] OTHER -> ""
EmitOne(disk, g, opts) ==
  LET r == IF g.fail THEN Failed(Ok(disk), "generator") ELSE WriteFiles(Ok(disk), g.name, g.files, opts, 1)
      u == <<g.name, "umbrella.rs">>
      text == UmbrellaText(g.umb, g.name, r.inc)
      w == IF ~r.ok THEN r
           ELSE IF g.umb = "fail" THEN Failed(r, "generator")
           ELSE IF Len(text) > 1 THEN Write(r, u, text) ELSE r
  IN [ok |-> w.ok, why |-> w.why, disk |-> w.disk, asked |-> [name |-> g.name, inc |-> r.inc],
      path |-> [name |-> g.name, path |-> IF Len(text) > 1 THEN u ELSE <<g.name>>]]

(* A run over all protocols; asked are the files each umbrella is to       *)
(* include, paths what is returned to the user.                            *)
RECURSIVE EmitGens(_, _, _, _)
EmitGens(a, gens, opts, i) ==
  IF i > Len(gens) \/ ~a.ok THEN a
  ELSE LET r == EmitOne(a.disk, gens[i], opts)
       IN EmitGens([ok |-> r.ok, why |-> r.why, disk |-> r.disk, asked |-> Append(a.asked, r.asked),
                    paths |-> Append(a.paths, r.path)], gens, opts, i + 1)
EmitRun(disk, gens, opts) ==
  EmitGens([ok |-> TRUE, why |-> "", disk |-> disk, asked |-> <<>>, paths |-> <<>>], gens, opts, 1)
=============================================================================
