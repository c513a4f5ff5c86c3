----------------------------- MODULE MassTrace -----------------------------
(* Conformance of models.mass with Mass (C04, C05).  An event holds the     *)
(* model (fn), its configuration (cfg, smoothed models only), the           *)
(* hyperparameters p, the points x[coordinate][i] and the output.           *)
EXTENDS Mass, TraceBase
VARIABLES s, l
RTol == "2e-8"
ATol == "1e-290"
Pt(e, i) == [c \in DOMAIN e.x |-> e.x[c][i]]
NPts(e) == Len(e.x[CHOOSE c \in DOMAIN e.x : TRUE])
Close(a, b) == Abs(a \ominus b) \preceq ("1e-12" \otimes Abs(b))
\* limits decided by rounding, or where the density has no value
Edge(e, i) ==
  LET x == Pt(e, i) p == e.p
      at(m, lims) == \E k \in DOMAIN lims : Close(m, lims[k]) /\ ~Eq(m, lims[k])
  IN  IF "mass" \in DOMAIN x THEN at(x.mass, <<p.mmin, p.mmax>>)
      ELSE IF "mass_2" \in DOMAIN x THEN at(x.mass_1, <<p.mmin, p.mmax>>) \/ at(x.mass_2, <<p.mmin, p.mmax>>)
      ELSE \/ at(x.mass_1, <<p.mmax>>) \/ Close(x.mass_1, p.mmin)
           \/ Close(x.mass_ratio \otimes x.mass_1, p.mmin)
           \/ (e.op = "smooth" /\ (Close(x.mass_1, e.cfg.mmax) /\ ~Eq(x.mass_1, e.cfg.mmax)))
Clauses(e) ==
  LET o == e.out  n == NPts(e)
      ok == IsArr(o) /\ Len(o.v) = n
      dom == e.op = "plain" \/ InRange(e.p, e.cfg)
      judge == {i \in 1..n : ~Edge(e, i)}
      nm1 == IF e.op = "smooth" /\ ok /\ dom THEN NormM1(e.p, e.cfg) ELSE One
      want == IF ~(ok /\ dom) THEN <<>>
              ELSE [i \in 1..n |-> IF i \notin judge THEN Zero
                                   ELSE IF e.op = "plain" THEN MassModel(e.fn, Pt(e, i), e.p)
                                   ELSE Smoothed(Pt(e, i), e.p, e.cfg, nm1)]
  IN [ out_of_range |-> (~dom /\ e.be = "numpy") => Raised(o, "ValueError"),
       evaluates |-> dom => ok,
       shape     |-> (dom /\ IsArr(o)) => o.sh = e.sh,
       valid     |-> (ok /\ dom) => \A i \in judge : IsFin(o.v[i]) /\ Zero \preceq o.v[i],
       zero_outside |-> (ok /\ dom) => \A i \in judge : want[i] = Zero => (IsFin(o.v[i]) /\ Abs(o.v[i]) \preceq (IF e.op = "plain" THEN Zero ELSE ATol)),
       value     |-> (ok /\ dom) => \A i \in judge : Near(o.v[i], want[i], RTol, ATol) ]
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
