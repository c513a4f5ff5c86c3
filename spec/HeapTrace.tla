----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* Conformance: contents of every caller object before the first and after *)
(* every operation (C22).  heap is the content the specification expects.  *)
(* A content is a tree of records [t |-> type, ...]; a dictionary is       *)
(* [t |-> "dict", d |-> entries].                                          *)
(***************************************************************************)
EXTENDS Heap, TraceBase
VARIABLES s, l, heap
IsDict(c) == c.t = "dict"
Extended(old, new) == IsDict(old) /\ IsDict(new) /\ DOMAIN old.d \subseteq DOMAIN new.d /\ \A k \in DOMAIN old.d : new.d[k] = old.d[k]
StatKeys(n) == {"ln_bf_" \o ToString(i - 1) : i \in 1..n} \cup {"var_" \o ToString(i - 1) : i \in 1..n} \cup {"selection", "selection_variance", "variance"}
Clauses(D, e, h) ==
  [ completed |-> e.ok,
    unchanged |-> \A o \in DOMAIN e.after : (o \notin Writes(e.op)) => e.after[o] = h[o],
    all_objects |-> DOMAIN e.after = Objects,
    only_statistics_added |-> \A o \in Writes(e.op) \cap DOMAIN e.after :
        Extended(h[o], e.after[o]) /\ (DOMAIN e.after[o].d \subseteq DOMAIN h[o].d \cup StatKeys(D.n)),
    same_result_again |-> (e.deterministic /\ e.ok) => e.again = e.out ]
Init == s \in 1..Len(Scen) /\ l = 0 /\ heap = Scen[s].D.before
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ LET e == Scen[s].ev[l + 1] IN
             /\ Report(s, l + 1, Clauses(Scen[s].D, e, heap))
             \* what was found is the reference of the next step, so that one modification is reported once
             /\ heap' = e.after
=============================================================================
