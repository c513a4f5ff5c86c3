---------------------------- MODULE BackendTrace ----------------------------
(* Conformance of gwpopulation.set_backend with Backend.  The actions of    *)
(* Backend drive the state; the observed sites must follow it.              *)
EXTENDS Backend, TraceBase
VARIABLES s, l
Range(q) == {q[i] : i \in DOMAIN q}
TInit == /\ s \in 1..Len(Scen) /\ l = 0
         /\ LET c == Scen[s].start IN
            /\ plug = Range(c.plug) /\ broken = Range(c.broken) /\ fn = c.fn
            /\ active = "none" /\ res = "ok"
            /\ att = [x \in Sites(plug) |-> IF x = "pkg" THEN "numpy" ELSE "none"]
Clauses(e, ok0) ==
  LET fresh == active' # "none"     \* before the first selection plugin modules may not be loaded
  IN
  [ outcome  |-> e.a = "select" => ((e.out = "ok") <=> (res' = "ok")),
    value_error |-> (e.a = "select" /\ e.b \notin Supported) => e.out = "ValueError",
    observed |-> DOMAIN e.att = DOMAIN att',
    sites_follow_selection |-> (e.a = "select" /\ res' = "ok" /\ DOMAIN e.att = DOMAIN att') =>
        \A x \in DOMAIN att' : e.att[x] = att'[x],
    failure_changes_nothing |-> (e.a = "select" /\ res' = "raised" /\ DOMAIN e.att = DOMAIN att') =>
        \A x \in DOMAIN att' : e.att[x] = att'[x],
    environment_changes_nothing |-> (e.a # "select" /\ DOMAIN e.att = DOMAIN att') =>
        \A x \in DOMAIN att' : e.att[x] = att'[x],
    computes_on_backend |-> active' # "none" => e.computes = active',
    double_precision |-> active' = "jax" => e.x64 ]
TNext == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
         /\ LET e == Scen[s].ev[l + 1] IN
            /\ CASE e.a = "select" -> Select(e.b)
                 [] e.a = "repair" -> Repair(e.b)
                 [] OTHER -> Toggle
            /\ Report(s, l + 1, Clauses(e, TRUE))
=============================================================================
