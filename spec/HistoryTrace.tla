---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Conformance of evaluation histories (C06).  Scenario: objects D.obj;    *)
(* events: evaluations in order with the value observed and the value of a *)
(* fresh object built with e.n nodes.  st[i] is the set of states the      *)
(* specification admits for object i (whether an evaluation that fails     *)
(* binds the object to its dataset is left open); evaluations outside the  *)
(* promise are not judged but do change the state.                         *)
(***************************************************************************)
EXTENDS History, TraceBase
VARIABLES s, l, st
Same(o, r) == IsArr(o) /\ IsArr(r) /\ o.sh = r.sh /\ NearSeq(o.v, r.v, "1e-11", "1e-250")
Clauses(o, t, e) ==
  LET in == \A x \in t : InScope(o, x, e.d, e.n) IN
  CASE e.op = "eval" -> [ evaluates |-> in => IsArr(e.out), as_a_fresh_object |-> (in /\ IsArr(e.fresh)) => Same(e.out, e.fresh), fresh_evaluates |-> IsArr(e.fresh) ]
    \* keeping the configuration: the names reported afterwards
    [] e.op = "config" -> [ configuration_kept |-> e.names = e.freshnames ]
    [] OTHER -> [ raises |-> in => IsExc(e.out) ]
Init == s \in 1..Len(Scen) /\ l = 0 /\ st = [i \in 1..Len(Scen[s].D.obj) |-> {Fresh}]
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ LET e == Scen[s].ev[l + 1]  o == Scen[s].D.obj[e.i] IN
             /\ Report(s, l + 1, Clauses(o, st[e.i], e))
             /\ st' = IF e.op = "config" THEN st ELSE [st EXCEPT ![e.i] = {After(o, x, e.d, e.n) : x \in @} \cup (IF e.op = "fail" THEN @ ELSE {})]
=============================================================================
