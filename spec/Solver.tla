------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* A compilation session with an import solver of the user.  The solver    *)
(* may not know some protocols (hide) and have no path for some types      *)
(* (nopath); regs is what it was told, the protocols with the path they    *)
(* were imported under, in order.                                          *)
(***************************************************************************)
EXTENDS Compiler

Session(ev) == Items(ev.imports, ev.loads)

(* The solver is asked for the path of the types a protocol declares; the  *)
(* path of those it imports itself was found then.                         *)
Owner(st, d) ==
  LET r == st.reg[d.p]
      key == IF Has(r.structs, d.t) THEN r.structs[d.t] ELSE IF Has(r.enums, d.t) THEN r.enums[d.t]
             ELSE IF Has(r.unions, d.t) THEN r.unions[d.t] ELSE r.messages[d.t]
  IN st.objs[key].role

SolverStep(st, it, ev) ==
  IF it.op # "import" THEN Step(st, it)
  ELSE IF \E k \in 1..Len(ev.hide) : ev.hide[k] = it.d.p THEN Fail(st, "undefined protocol")
  ELSE LET n == Step(st, it)
       IN IF n.ok /\ Owner(st, it.d) = st.reg[it.d.p].role /\ \E k \in 1..Len(ev.nopath) : ev.nopath[k] = it.d
          THEN Fail(st, "solver") ELSE n

Told(st, it, ev, regs) ==
  IF it.op = "close" /\ it.role = "I" THEN Append(regs, [base |-> ev.bases[Len(regs) + 1], name |-> st.env.proto]) ELSE regs

Number(st, role) == CHOOSE k \in 1..100 : role = "I" \o ToString(k)

(* The registration which declares what an import of a loaded protocol     *)
(* means                                                                   *)
Resolved(st, ev) == [l \in 1..Len(ev.loads) |-> [i \in 1..Len(ev.loads[l].imports) |->
                       Number(st, Owner(st, ev.loads[l].imports[i]))]]
=============================================================================
