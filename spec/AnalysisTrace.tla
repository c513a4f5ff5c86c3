--------------------------- MODULE AnalysisTrace ---------------------------
(* Conformance of complete analyses with Analysis (C24).  A scenario is one  *)
(* analysis D; its events are operations in the order performed.             *)
EXTENDS Analysis, TraceBase
VARIABLES s, l
Num(o) == IF IsArr(o) /\ o.sh = <<>> THEN o.v[1] ELSE "no number"
IsNum(o) == IsArr(o) /\ o.sh = <<>>
\* relative accuracy of one weight: grids in redshift, beta functions of jax, tabulated distances in the detector frame
Tol(c) == (IF c.frame = "detector" THEN "1e-2" ELSE IF c.red = "none" THEN "1e-7" ELSE "1e-5")
          \oplus (IF c.spin = "GaussianChiEffChiP" THEN "2e-3" ELSE "4e-6")
TolLn(D, o) == Tol(D.c) \otimes (2 * Len(D.post) + (IF D.c.kind = "rate" /\ o.defined THEN Floor(o.rate \otimes o.mu) ELSE 0))
Far(x, y, tol) == Abs(x \ominus y) \succ (tol \otimes (One \oplus Abs(y)))
\* the decision about a threshold is not within the accuracy
SureCut(D, o) == D.maxunc = "inf" \/ ~o.defined \/ Far(o.var, Sq(D.maxunc), "20" \otimes Tol(D.c))
SureSel(D, o) == ~D.enforce \/ D.nev = "inf" \/ Abs(Sq(o.mu) \ominus ("4" \otimes D.nev \otimes o.va)) \succ ("20" \otimes Tol(D.c) \otimes Sq(o.mu))
Value(D, o) == IF ~o.defined \/ Exceeds(o.var, D.maxunc) THEN Lowest ELSE o.ln
NearValue(D, o, x) == IF IsLowest(Value(D, o)) THEN IsFin(x) /\ IsLowest(x) ELSE Near(x, o.ln, "1e-9", TolLn(D, o))
NearRel(D, x, y) == Near(x, y, "6" \otimes Tol(D.c), "1e-11")
K(a, i) == a \o ToString(i - 1)
Clauses(D, e) ==
  LET o == IF e.op \in {"hyper", "names"} THEN [defined |-> FALSE, W |-> <<>>] ELSE Outcome(D, e.p)
      sure == SureCut(D, o) /\ SureSel(D, o)
      ex == e.op = "extra" /\ e.out.k = "dict"
      has(k) == ex /\ k \in DOMAIN e.out.d
      val(k) == Num(e.out.d[k])
      pos == \A i \in DOMAIN o.W : EventOk(o.W[i])
  IN
  [ number |-> e.op \in {"ratio", "jit", "hyper"} => IsNum(e.out),
    ratio |-> (e.op \in {"ratio", "jit"} /\ IsNum(e.out) /\ sure) => NearValue(D, o, Num(e.out)),
    estimate |-> (e.op = "full" /\ o.defined /\ SureSel(D, o)) => (IsNum(e.ln) /\ Near(Num(e.ln), o.ln, "1e-9", TolLn(D, o))),
    variance |-> (e.op = "full" /\ o.defined /\ SureSel(D, o)) => (IsNum(e.var) /\ NearRel(D, Num(e.var), o.var)),
    efficiency |-> e.op = "eff" => (IsNum(e.mu) /\ NearRel(D, Num(e.mu), o.mu)),
    efficiency_variance |-> e.op = "eff" => (IsNum(e.var) /\ Near(Num(e.var), o.va, "12" \otimes Tol(D.c), "1e-13" \otimes Sq(o.mu))),
    hypervolume |-> (e.op = "hyper" /\ IsNum(e.out)) => Near(Num(e.out), Hypervolume(D, e.p), "2e-5", Zero),
    extra |-> e.op = "extra" => ex,
    bayes_factors |-> (ex /\ pos) => \A i \in DOMAIN o.W : has(K("ln_bf_", i)) /\ Near(val(K("ln_bf_", i)), EventLn(o.W[i]), "1e-9", "2" \otimes Tol(D.c)),
    bayes_factor_variances |-> (ex /\ pos) => \A i \in DOMAIN o.W : has(K("var_", i)) /\ NearRel(D, val(K("var_", i)), EventVar(o.W[i])),
    selection |-> (ex /\ o.defined /\ SureSel(D, o)) => (has("selection") /\ NearRel(D, val("selection"), o.mu)),
    total_variance |-> (ex /\ o.defined /\ SureSel(D, o)) => (has("variance") /\ NearRel(D, val("variance"), o.var)),
    weights |-> (e.op = "weights" /\ pos) => \A i \in DOMAIN o.W : NearSeq(e.out[i], [k \in DOMAIN o.W[i] |-> o.W[i][k] \oslash Sum(o.W[i])], "6" \otimes Tol(D.c), "1e-12"),
    parameters |-> e.op = "names" => {e.out[i] : i \in DOMAIN e.out} = DOMAIN Sampled(D.c, e.p) \ ({"rate"} \cup (IF D.c.given = "shape" THEN {} ELSE {"mu_chi", "sigma_chi"})) ]
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].D, Scen[s].ev[l + 1]))
=============================================================================
