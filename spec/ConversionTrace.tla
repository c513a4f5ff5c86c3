-------------------------- MODULE ConversionTrace --------------------------
(* Conformance of gwpopulation.conversions.                                 *)
EXTENDS Conversion, TraceBase
VARIABLES s, l
Range(q) == {q[i] : i \in DOMAIN q}
Same(a, b) == a.k = b.k /\ (a.k = "val" => Near(a.v, b.v, "1e-9", "1e-12"))
Exact(a, b) == a.k = b.k /\ (a.k = "val" => Eq(a.v, b.v))
DictClauses(e) ==
  LET want == Converted(e.P)  ok == e.ok  keys == ok /\ DOMAIN e.out = DOMAIN want IN
  [ converts |-> ok,
    keys |-> keys,
    shape_parameters |-> keys => \A n \in Added(e.P) : Same(e.out[n], want[n]),
    rest_unchanged |-> ok => \A n \in DOMAIN e.P \ Added(e.P) : n \in DOMAIN e.out /\ Exact(e.out[n], e.P[n]),
    reports_added |-> ok => (IF e.remove THEN Range(e.added) = Added(e.P) /\ Len(e.added) = Cardinality(Added(e.P)) ELSE e.added = <<>>),
    input_unchanged |-> DOMAIN e.after = DOMAIN e.P /\ \A n \in DOMAIN e.P : n \in DOMAIN e.after => Exact(e.after[n], e.P[n]) ]
\* arrays of triples
FnClauses(e) ==
  LET ok == e.ok /\ e.out.k = "triple" /\ Len(e.out.a) = Len(e.x) /\ Len(e.out.b) = Len(e.x) /\ Len(e.out.c) = Len(e.x)
      n == DOMAIN e.x
      to == e.fn = "to_shape"
      ua(i) == IF to THEN Alpha(e.x[i], e.y[i], e.z[i]) ELSE MeanB(e.x[i], e.y[i], e.z[i])
      ub(i) == IF to THEN BetaP(e.x[i], e.y[i], e.z[i]) ELSE VarB(e.x[i], e.y[i], e.z[i])
  IN
  [ evaluates |-> ok,
    first  |-> ok => \A i \in n : Near(e.out.a[i], ua(i), "1e-9", "1e-10"),
    second |-> ok => \A i \in n : Near(e.out.b[i], ub(i), "1e-9", "1e-10"),
    third  |-> ok => \A i \in n : Eq(e.out.c[i], e.z[i]),
    round_trip |-> (ok /\ e.back.k = "triple") => \A i \in n :
        Near(e.back.a[i], e.x[i], "1e-8", "1e-10") /\ Near(e.back.b[i], e.y[i], "1e-8", "1e-10") /\ Eq(e.back.c[i], e.z[i]),
    round_trip_runs |-> ok => e.back.k = "triple",
    arguments_unchanged |-> e.same ]
Clauses(e) == IF e.op = "dict" THEN DictClauses(e) ELSE FnClauses(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
