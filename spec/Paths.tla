------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* The import solver which comes with the compiler.  reg maps the name of  *)
(* a protocol to the latest registration of it: the path it was made with  *)
(* and the number which tells the protocols of a name apart.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NoPaths == [x \in {} |-> <<>>]
Register(reg, base, name, id) == (name :> [base |-> base, id |-> id]) @@ reg
(* The protocol of a name, 0 if there is none                              *)
ByName(reg, name) == IF name \in DOMAIN reg THEN reg[name].id ELSE 0
(* The path of a type, as a sequence of 0 or 1 texts                       *)
TypePath(reg, sep, name, ty) == IF name \in DOMAIN reg THEN <<reg[name].base \o sep \o ty>> ELSE <<>>
=============================================================================
