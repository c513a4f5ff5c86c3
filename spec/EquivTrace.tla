----------------------------- MODULE EquivTrace -----------------------------
(***************************************************************************)
(* Conformance of evaluations in different ways (C02).  The first event of *)
(* a scenario is the request with numpy and Python floats on the flat      *)
(* dataset; its value (ref) is the value of the request.                   *)
(***************************************************************************)
EXTENDS Equiv, TraceBase
VARIABLES s, l, ref
\* functions that use the logarithm of the beta function, which jax computes less accurately
RTol(e) == IF e.tol = "beta" THEN "2e-5" ELSE "1e-8"
Tiny == "1e-290"
IsZero(v) == IsFin(v) /\ Abs(v) \preceq Tiny
First(e) == [ reference_evaluates |-> IsArr(e.out) /\ e.out.sh = e.sh /\ AllFin(e.out.v) ]
Later(e, r) ==
  LET o == e.out  n == Size(e.sh)  ok == IsArr(o) /\ IsArr(r)
      w == IF ok THEN Result(r.v, e.sh) ELSE [sh |-> <<>>, v |-> <<>>]
      full == ok /\ o.sh = w.sh
  IN [ evaluates |-> IsArr(o),
       shape |-> ok => o.sh = w.sh,
       support |-> full => \A i \in 1..n : IsZero(o.v[i]) <=> IsZero(w.v[i]),
       values |-> full => NearSeq(o.v, w.v, RTol(e), Tiny) ]
Init == s \in 1..Len(Scen) /\ l = 0 /\ ref = [k |-> "none"]
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ LET e == Scen[s].ev[l + 1] IN
             /\ IF e.op = "ref" THEN Report(s, l + 1, First(e)) ELSE Report(s, l + 1, Later(e, ref))
             /\ ref' = IF e.op = "ref" THEN e.out ELSE ref
=============================================================================
