---------------------------- MODULE NamesTrace ----------------------------
(***************************************************************************)
(* Conformance of the declared hyperparameters (C23).  Scenario: objects   *)
(* D.cfg and the reference values D.ref[i] of fresh objects called         *)
(* directly; events are the operations in order.                           *)
(***************************************************************************)
EXTENDS Names, TraceBase, FiniteSets
VARIABLES s, l
SeqSet(q) == {q[i] : i \in DOMAIN q}
Same(o, r) == IsArr(o) /\ IsArr(r) /\ o.sh = r.sh /\ NearSeq(o.v, r.v, "1e-12", "1e-300")
Clauses(D, e) ==
  LET c == D.cfg[e.i]  ns == NamesOf(c) IN
  CASE e.op = "read" -> [ names |-> SeqSet(e.names) = ns, each_once |-> Len(e.names) = Cardinality(SeqSet(e.names)) ]
    [] e.op = "missing" -> [ error_names_the_parameter |-> IsExc(e.out) /\ e.named ]
    [] e.op = "used" -> [ every_name_matters |-> (e.name \in Decisive(c)) => (IsArr(e.out) /\ ~Same(e.out, D.ref[e.i])) ]
    [] OTHER -> [ evaluates |-> IsArr(e.out), value |-> Same(e.out, D.ref[e.i]) ]
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].D, Scen[s].ev[l + 1]))
=============================================================================
