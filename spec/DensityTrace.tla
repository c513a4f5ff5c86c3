---------------------------- MODULE DensityTrace ----------------------------
(* Conformance of utils.powerlaw, truncnorm, beta_dist, von_mises and       *)
(* unnormalized_2d_gaussian with Densities (C03).  Parameters are logged    *)
(* per point (p[name][i]).                                                  *)
EXTENDS Densities, TraceBase
VARIABLES s, l
\* Accuracy of the libraries' special functions: ln B(a, b) of jax is good to 1e-6 only, and
\* the logarithm of the normal distribution function relative to its size, which is z^2/2.
RTol(e, i) ==
  CASE e.be = "jax" /\ e.fn = "beta_dist" -> "1e-5"
    [] e.fn = "truncnorm" -> "1e-8" \oplus ("1e-9" \otimes
         MinR(Sq((e.p.low[i] \ominus e.p.mu[i]) \oslash e.p.sigma[i]),
              Sq((e.p.high[i] \ominus e.p.mu[i]) \oslash e.p.sigma[i])))
    [] OTHER -> "1e-8"
ATol == "1e-300"
At(e, i) ==
  LET x == e.x[i] p == e.p IN
  CASE e.fn = "powerlaw"  -> PowerLaw(x, p.alpha[i], p.high[i], p.low[i])
    [] e.fn = "truncnorm" -> TruncNorm(x, p.mu[i], p.sigma[i], p.high[i], p.low[i])
    [] e.fn = "beta_dist" -> Beta(x, p.alpha[i], p.beta[i], p.scale[i])
    [] e.fn = "von_mises" -> VonMises(x, p.mu[i], p.kappa[i])
    [] OTHER -> Gauss2D(x, e.y[i], p.mu_x[i], p.mu_y[i], p.sigma_x[i], p.sigma_y[i], p.covariance[i])
Outside(e, i) ==
  CASE e.fn \in {"powerlaw", "truncnorm"} -> (e.x[i] \prec e.p.low[i]) \/ (e.p.high[i] \prec e.x[i])
    [] e.fn = "beta_dist" -> (e.x[i] \prec Zero) \/ (e.p.scale[i] \prec e.x[i])
    [] OTHER -> FALSE
InDomain(e) == \A i \in DOMAIN e.x :
  CASE e.fn = "powerlaw"  -> Zero \preceq e.p.low[i]
    [] e.fn = "truncnorm" -> Zero \prec e.p.sigma[i]
    [] e.fn = "beta_dist" -> Zero \prec e.p.alpha[i] /\ Zero \prec e.p.beta[i] /\ Zero \prec e.p.scale[i]
    [] OTHER -> TRUE
DensityClauses(e) ==
  LET o == e.out  dom == InDomain(e)  n == Len(e.x)
      ok == IsArr(o) /\ Len(o.v) = n
      want == IF ok /\ dom THEN [i \in 1..n |-> At(e, i)] ELSE <<>>
  IN [ domain_error  |-> (~dom /\ e.be = "numpy") => Raised(o, "ValueError"),
       evaluates     |-> dom => ok,
       shape         |-> (dom /\ IsArr(o)) => o.sh = e.sh,
       finite        |-> (ok /\ dom) => \A i \in 1..n : want[i] # "edge" => IsFin(o.v[i]),
       not_negative  |-> (ok /\ dom) => \A i \in 1..n : (want[i] # "edge" /\ IsFin(o.v[i])) => Zero \preceq o.v[i],
       zero_outside  |-> (ok /\ dom) => \A i \in 1..n : Outside(e, i) => (IsFin(o.v[i]) /\ Eq(o.v[i], Zero)),
       value         |-> (ok /\ dom) => \A i \in 1..n : want[i] # "edge" => Near(o.v[i], want[i], RTol(e, i), ATol) ]
(* -- the decorator that states such domains ---------------------------------- *)
\* conds: name -> [op, v]; kw: name -> values given by name
Meets(c, x) == CASE c.op = "gt" -> c.v \prec x [] c.op = "ge" -> c.v \preceq x [] c.op = "lt" -> x \prec c.v [] c.op = "le" -> x \preceq c.v
                 [] c.op = "eq" -> Eq(x, c.v) [] c.op = "even" -> \E k \in 0..20 : Eq(x, ToString(2 * k)) [] OTHER -> FALSE
Violated(e) == \E k \in DOMAIN e.kw \cap DOMAIN e.conds : \E j \in DOMAIN e.kw[k] : ~Meets(e.conds[k], e.kw[k][j])
CondClauses(e) ==
  [ raises |-> (e.be = "numpy" /\ Violated(e)) => Raised(e.out, "ValueError"),
    calls |-> (e.be # "numpy" \/ ~Violated(e)) => (IsArr(e.out) /\ e.out.v = e.plain.v /\ e.out.sh = e.plain.sh),
    keeps_the_name |-> e.named ]
Clauses(e) == IF e.fn = "conditions" THEN CondClauses(e) ELSE DensityClauses(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
