-------------------------- MODULE LikelihoodTrace --------------------------
(***************************************************************************)
(* Conformance of HyperparameterLikelihood, RateLikelihood and             *)
(* NullHyperparameterLikelihood.  A scenario is one likelihood object D    *)
(* (the tables it was given, model, conversion, selection function,        *)
(* threshold); its events are operations in the order performed.           *)
(***************************************************************************)
EXTENDS Likelihood, TraceBase, FiniteSets
VARIABLES s, l
SeqSet(q) == {q[i] : i \in DOMAIN q}

(* -- the population models and conversions the drivers use --------------- *)
Par(D, p) == CASE D.conv = "double" -> [a |-> p.a, b |-> Two \otimes p.c]
               [] D.conv = "replace" -> [a |-> "3" \otimes p.a, b |-> p.b]
               [] OTHER -> [a |-> p.a, b |-> p.b]
ModelAt(m, q, r, k) ==
  CASE m = "lin"  -> (q.a \otimes r.x[k]) \oplus (q.b \otimes r.y[k])
    [] m = "prod" -> (One \oplus (q.a \otimes r.x[k])) \otimes Exp(Neg(q.b \otimes r.y[k]))
    [] OTHER      -> IF IsFin(r.w[k]) THEN q.a \otimes r.w[k] ELSE r.w[k]     \* "col"
PriorAt(r, k) == IF "prior" \in DOMAIN r THEN r.prior[k] ELSE One
WeightsOf(m, q, r, n) ==
  [k \in 1..n |-> LET x == ModelAt(m, q, r, k) IN IF IsFin(x) THEN x \oslash PriorAt(r, k) ELSE x]
Wts(D, q) == [i \in DOMAIN D.post |-> WeightsOf(D.model, q, D.post[i], D.n)]
(* detection probability and variance *)
SelPair(D, q) ==
  LET f == D.sel IN
  CASE f.k = "inj" ->
         LET w  == WeightsOf(f.model, q, f.inj, f.m)
             mu == Efficiency(w, f.total)  va == EfficiencyVar(w, f.total)
         IN  IF f.enforce /\ ~Converged(mu, va, f.nev) THEN <<"inf", va>> ELSE <<mu, va>>
    [] f.k = "raw" -> <<f.s, f.v>>
    [] OTHER -> <<(f.s0 \oplus (f.s1 \otimes q.a)) \oplus (f.s2 \otimes q.b),
                  IF f.k = "plain" THEN Zero ELSE f.v0 \oplus (f.v1 \otimes q.a)>>
Rate(D, p) == IF D.kind = "rate" THEN p.rate ELSE One

LnTol == "1e-8"
NearLn(x, y) == Near(x, y, "1e-9", LnTol)
NearVar(x, y) == Near(x, y, "1e-7", "1e-11")
\* comparisons within rounding of the threshold decide nothing
Clear(var, maxunc) == maxunc = "inf" \/ Abs(var \ominus Sq(maxunc)) \succ ("1e-9" \otimes (One \oplus var))
\* ... unless everything is computed exactly in binary: a value on the threshold does not exceed it
Dyadic == {"0", "0.25", "0.5", "1", "2", "4"}
IsDyadic(x) == IsFin(x) /\ \E u \in Dyadic : Eq(x, u)
ExactCut(kind, W, sv, r) == /\ \A i \in DOMAIN W : (Len(W[i]) \in {1, 2, 4} \/ \A j \in DOMAIN W[i] : Eq(W[i][j], One)) /\ \A j \in DOMAIN W[i] : IsDyadic(W[i][j])
                            /\ IsDyadic(sv[1]) /\ IsDyadic(sv[2]) /\ (kind = "rate" => IsDyadic(r))
ClearSel(D, q) == D.sel.k # "inj" \/ ~D.sel.enforce \/ D.sel.nev = "inf" \/
  LET w == WeightsOf(D.sel.model, q, D.sel.inj, D.sel.m)
      mu == Efficiency(w, D.sel.total)  va == EfficiencyVar(w, D.sel.total)
  IN  Abs(Sq(mu) \ominus ("4" \otimes D.sel.nev \otimes va)) \succ ("1e-9" \otimes Sq(mu))

Num(o) == IF IsArr(o) /\ o.sh = <<>> THEN o.v[1] ELSE "no number"
IsNum(o) == IsArr(o) /\ o.sh = <<>>

EvalClauses(D, e) ==
  LET q == Par(D, e.p)  W == Wts(D, q)  sv == SelPair(D, q)  r == Rate(D, e.p)
      def == Defined(D.kind, W, sv[1], r)
      vok == IsFin(sv[2])
      var == IF def /\ vok THEN Var0(D.kind, W, sv[1], sv[2], r) ELSE Zero
      ln  == IF def THEN Ln0(D.kind, W, sv[1], r) ELSE Zero
      sure == vok /\ (Clear(var, D.maxunc) \/ (def /\ ExactCut(D.kind, W, sv, r))) /\ ClearSel(D, q)
      null == D.kind = "null"
      ll == e.ll  n == Num(e.llr)
  IN
  [ ratio_is_a_number |-> IsNum(e.llr),
    ratio_is_finite   |-> IsNum(e.llr) => IsFin(n),
    rejected_if_undefined |-> (~def /\ ~null /\ ClearSel(D, q) /\ IsNum(e.llr)) => IsLowest(n),
    \* the null likelihood depends on the uncertainty alone
    null_zero_or_lowest |-> (null /\ IsNum(e.llr)) => (Eq(n, Zero) \/ IsLowest(n)),
    null_zero_without_maximum |-> (null /\ D.maxunc = "inf" /\ IsNum(e.llr)) => Eq(n, Zero),
    null_without_detections |-> (null /\ vok /\ sv[1] = "inf" /\ ClearSel(D, q) /\ IsNum(e.llr) /\ \A i \in DOMAIN W : EventOk(W[i])) =>
        LET u == Sum([i \in DOMAIN W |-> EventVar(W[i])]) IN Clear(u, D.maxunc) => IF Exceeds(u, D.maxunc) THEN IsLowest(n) ELSE Eq(n, Zero),
    rejected_if_uncertain |-> (def /\ sure /\ Exceeds(var, D.maxunc) /\ IsNum(e.llr)) => IsLowest(n),
    ratio_is_the_estimate |-> (def /\ sure /\ ~Exceeds(var, D.maxunc) /\ IsNum(e.llr)) => NearLn(n, ln),
    estimate |-> (def /\ sure /\ "ln" \in DOMAIN e) => (IsNum(e.ln) /\ NearLn(Num(e.ln), ln)),
    variance |-> (def /\ sure /\ "var" \in DOMAIN e) => (IsNum(e.var) /\ NearVar(Num(e.var), var)),
    evidence |-> ("noise" \in DOMAIN e) => IF D.lnev = <<>> THEN ~IsFin(Num(e.noise))
                                              ELSE NearLn(Num(e.noise), Sum(D.lnev)),
    log_likelihood |-> (D.lnev # <<>> /\ IsNum(e.llr) /\ "ll" \in DOMAIN e /\ IsFin(n)) =>
        (IsNum(e.ll) /\ IF IsLowest(n) THEN IsFin(Num(e.ll)) => (Num(e.ll) \preceq "-1E300") ELSE NearLn(Num(e.ll), n \oplus Sum(D.lnev))) ]

(* -- extra statistics ------------------------------------------------------ *)
Keys(D, p) == DOMAIN p \cup {"selection", "selection_variance", "variance"}
              \cup {"ln_bf_" \o ToString(i - 1) : i \in DOMAIN D.post} \cup {"var_" \o ToString(i - 1) : i \in DOMAIN D.post}
ExtraClauses(D, e) ==
  LET q == Par(D, e.p)  W == Wts(D, q)  sv == SelPair(D, q)  r == Rate(D, e.p)
      def == Defined(D.kind, W, sv[1], r) /\ Zero \prec sv[1]
      keys == e.out.k = "dict" /\ DOMAIN e.out.d = Keys(D, e.p)
      have(k) == e.out.k = "dict" /\ k \in DOMAIN e.out.d
      val(k) == Num(e.out.d[k])
  IN
  [ keys |-> keys,
    given_kept |-> \A k \in DOMAIN e.p : have(k) /\ Near(val(k), e.p[k], "0", "0"),
    ln_bayes_factors |-> def => \A i \in DOMAIN W : have("ln_bf_" \o ToString(i - 1)) /\
                            NearLn(val("ln_bf_" \o ToString(i - 1)), EventLn(W[i])),
    variances |-> def => \A i \in DOMAIN W : have("var_" \o ToString(i - 1)) /\
                            NearVar(val("var_" \o ToString(i - 1)), EventVar(W[i])),
    selection |-> (def /\ ClearSel(D, q)) => (have("selection") /\ Near(val("selection"), sv[1], "1e-9", "0")),
    selection_variance |-> (def /\ ClearSel(D, q)) => (have("selection_variance") /\
                              NearVar(val("selection_variance"), sv[2] \oslash Sq(sv[1]))),
    total_variance |-> (def /\ ClearSel(D, q)) => (have("variance") /\ NearVar(val("variance"), Var0(D.kind, W, sv[1], sv[2], r))),
    \* what the likelihood object itself reports at this sample
    agrees_with_variance |-> (def /\ ClearSel(D, q) /\ have("variance") /\ IsNum(e.var)) => NearVar(val("variance"), Num(e.var)),
    agrees_with_ratio |-> (def /\ keys /\ ClearSel(D, q) /\ IsNum(e.llr) /\ D.maxunc = "inf" /\ D.kind # "null") =>
        LET ev == Sum([i \in DOMAIN W |-> val("ln_bf_" \o ToString(i - 1))]) IN
        NearLn(Num(e.llr), IF D.kind = "rate" THEN (ev \oplus (Ln(r) \otimes Len(W))) \ominus (r \otimes val("selection"))
                           ELSE ev \ominus (Ln(val("selection")) \otimes Len(W))),
    \* undefined estimates included
    agrees_where_undefined |-> (~def /\ ClearSel(D, q) /\ have("variance") /\ IsNum(e.var)) =>
        ((IsFin(val("variance")) <=> IsFin(Num(e.var))) /\ (IsFin(Num(e.var)) => NearVar(val("variance"), Num(e.var)))),
    undefined_events |-> \A i \in DOMAIN W : (have("ln_bf_" \o ToString(i - 1)) /\ ~EventOk(W[i])) => ~IsFin(val("ln_bf_" \o ToString(i - 1))),
    caller_dictionary |-> e.same ]

(* -- metadata ---------------------------------------------------------------- *)
MetaClauses(D, e) ==
  [ model_names |-> e.model = D.names,
    n_events |-> e.n_events = Len(D.post),
    samples  |-> e.samples = D.n,
    data_keys |-> DOMAIN e.data = {k \in DOMAIN D.post[1] : k # "prior"},
    plain_numpy |-> e.plain,
    \* same numbers as in the likelihood, row by row a permutation of the tables
    data |-> (D.full) => \A k \in DOMAIN e.data : k \in DOMAIN D.post[1] => \A i \in DOMAIN D.post :
         \A j \in 1..D.n : Cardinality({m \in 1..D.n : e.data[k][i][j] = D.post[i][k][m]}) >= 1,
    data_is_used |-> e.data = e.used,
    prior |-> IF "prior" \in DOMAIN D.post[1] THEN e.prior = e.usedprior ELSE e.prior = "1" ]

(* -- rate samples -------------------------------------------------------------- *)
\* fraction of the samples below x
Frac(q, x) == Div(Cardinality({i \in DOMAIN q : q[i] \preceq x}), Len(q))
RateClauses(D, e) ==
  LET q == Par(D, e.p)  n == Len(D.post)
      vt == IF "vt" \in DOMAIN e THEN e.vt ELSE SelPair(D, q)[1]
      eff == IF e.hyper = "none" THEN vt
             ELSE Efficiency(WeightsOf(D.sel.model, q, D.sel.inj, D.sel.m), D.sel.total) \otimes e.hyper
      scaled == [i \in DOMAIN e.out |-> IF IsFin(e.out[i]) THEN e.out[i] \otimes eff ELSE "-1"]
      band(f) == ("6" \otimes Sqrt((f \otimes (One \ominus f)) \oslash Len(e.out))) \oplus Div(1, Len(e.out))
  IN
  [ rate_parameter |-> D.kind = "rate" => \A i \in DOMAIN e.out : Near(e.out[i], e.p.rate, "1e-12", "0"),
    positive |-> \A i \in DOMAIN e.out : IsFin(e.out[i]) /\ Zero \prec e.out[i],
    gamma_distributed |-> D.kind # "rate" => \A u \in {"0.2", "0.5", "0.8", "1", "1.25", "1.7", "2.5"} :
        LET x == u \otimes n  f == GammaCdf(x, n) IN Abs(Frac(scaled, x) \ominus f) \preceq band(f) ]

(* -- the compiled wrapper --------------------------------------------------------- *)
Big == "1.7976931348623157E308"
\* what a wrapper returns for a value x of the likelihood function
Finite(x, out) == CASE x = "inf" -> Eq(out, Big) [] x = "-inf" -> Eq(out, Lowest) [] x = "nan" -> TRUE [] OTHER -> NearLn(out, x)
JitClauses(D, e) ==
  LET q == Par(D, e.p)  W == Wts(D, q)  sv == SelPair(D, q)  r == Rate(D, e.p)
      def == Defined(D.kind, W, sv[1], r) /\ IsFin(sv[2])
      sure == def /\ Clear(Var0(D.kind, W, sv[1], sv[2], r), D.maxunc) /\ ClearSel(D, q)
      value == Ratio(D.kind, W, sv[1], sv[2], r, D.maxunc)
      ok == IsNum(e.out) /\ IsFin(Num(e.out))
  IN
  [ evaluates |-> IsArr(e.out),
    python_float |-> e.t = "float",
    finite |-> IsNum(e.out) => IsFin(Num(e.out)),
    value |-> (ok /\ sure /\ ~IsLowest(value)) =>
       CASE e.mode = "ratio" -> NearLn(Num(e.out), value)
         [] e.mode = "full"  -> D.lnev # <<>> => NearLn(Num(e.out), value \oplus Sum(D.lnev))
         [] OTHER -> NearLn(Num(e.out), (e.scale \otimes value) \oplus e.shift),
    rejected |-> (ok /\ sure /\ IsLowest(value) /\ e.mode = "ratio") => IsLowest(Num(e.out)) ]
RawClauses(e) == [ python_float |-> e.t = "float", finite |-> IsNum(e.out) /\ IsFin(Num(e.out)),
                   of_the_same_sign |-> (IsNum(e.out) /\ IsFin(Num(e.out))) => Finite(e.raw, Num(e.out)) ]
SameClauses(e) == [ python_float |-> e.t = "float", as_the_wrapped_likelihood |-> IsNum(e.out) /\ IsNum(e.wrapped) /\ IsFin(Num(e.out)) /\ NearLn(Num(e.out), Num(e.wrapped)) ]
AttrClauses(e) == [ attributes |-> \A k \in DOMAIN e.same : e.same[k] ]

(* -- the numpyro model ---------------------------------------------------------- *)
\* D: as above with sel.k = "inj"; e: options of the call and the sites it created
NumpyroSites(D, e) ==
  {"variances", "ln_bayes_factors", "ln_l", "variance"}
  \cup (IF e.apply THEN {"selection", "selection_variance", "rate"} ELSE {})
  \cup (IF e.predict THEN {k \o "_" \o ToString(i - 1) : k \in e.keys, i \in DOMAIN D.post} ELSE {})
  \cup (IF e.predict /\ e.apply THEN {k \o "_injections" : k \in e.injkeys} ELSE {})
Negligible == "1e-9"
Share(w, k) == w[k] \oslash Sum(w)
NumpyroClauses(D, e) ==
  LET q == Par(D, e.p)  W == Wts(D, q)  n == Len(W)
      w == WeightsOf(D.sel.model, q, D.sel.inj, D.sel.m)
      ok(r) == AllFin(r) /\ Zero \prec Sum(r)
      evok == \A i \in DOMAIN W : ok(W[i])
      selok == IF e.apply THEN ok(w) ELSE TRUE
      mu == Efficiency(w, D.sel.total)  va == EfficiencyVar(w, D.sel.total)
      ln == Sum([i \in DOMAIN W |-> EventLn(W[i])])
      var == Sum([i \in DOMAIN W |-> EventVar(W[i])])
      sel == Neg(Ln(mu) \otimes n)  selvar == SelVar("marg", n, mu, va, One)
      tot == IF e.apply THEN ln \oplus sel ELSE ln
      totvar == IF e.apply THEN var \oplus selvar ELSE var
      def == evok /\ selok
      has(k) == k \in DOMAIN e.sites
      num(k) == has(k) /\ IsNum(e.sites[k])
      val(k) == Num(e.sites[k])
      clear == e.varmax = "inf" \/ Abs(totvar \ominus e.varmax) \succ ("1e-9" \otimes (One \oplus totvar))
               \/ (~e.apply /\ ExactCut("marg", W, <<One, Zero>>, One))
      limited == e.varmax # "inf" /\ e.varmax \prec totvar
      rows(i, keys) == {k \in 1..D.n : \A c \in keys : has(c \o "_" \o ToString(i - 1)) /\ num(c \o "_" \o ToString(i - 1))
                                          /\ Near(val(c \o "_" \o ToString(i - 1)), D.post[i][c][k], "0", "0")}
      injrows(j) == {k \in 1..D.sel.m : \A c \in e.injkeys \cap DOMAIN D.sel.inj :
                        has(c \o "_injections") /\ Len(e.sites[c \o "_injections"].v) >= j
                        /\ Near(e.sites[c \o "_injections"].v[j], D.sel.inj[c][k], "0", "0")}
  IN
  [ completed |-> e.ok,
    sites |-> e.ok => DOMAIN e.sites = NumpyroSites(D, e),
    ln_bayes_factors |-> (e.ok /\ evok) => has("ln_bayes_factors") /\ Len(e.sites["ln_bayes_factors"].v) = n
         /\ \A i \in DOMAIN W : NearLn(e.sites["ln_bayes_factors"].v[i], EventLn(W[i])),
    variances |-> (e.ok /\ evok) => has("variances") /\ Len(e.sites["variances"].v) = n
         /\ \A i \in DOMAIN W : NearVar(e.sites["variances"].v[i], EventVar(W[i])),
    selection |-> (e.ok /\ e.apply /\ selok) => (num("selection") /\ NearLn(val("selection"), sel)),
    selection_variance |-> (e.ok /\ e.apply /\ selok) => (num("selection_variance") /\ NearVar(val("selection_variance"), selvar)),
    ln_l |-> (e.ok /\ def) => (num("ln_l") /\ NearLn(val("ln_l"), tot)),
    variance |-> (e.ok /\ def) => (num("variance") /\ NearVar(val("variance"), totvar)),
    result |-> (e.ok /\ def /\ clear) => (IsNum(e.out) /\ IF limited THEN IsLowest(Num(e.out)) ELSE NearLn(Num(e.out), tot)),
    compiled |-> (e.ok /\ "jit" \in DOMAIN e /\ IsNum(e.out)) => (IsNum(e.jit) /\ NearLn(Num(e.jit), Num(e.out))),
    rate_mean |-> (e.ok /\ e.apply /\ selok) => Near(e.ratemean, Div(n, e.volume \otimes mu), "1e-9", "0"),
    rate_variance |-> (e.ok /\ e.apply /\ selok) => Near(e.ratevar, Div(n, Sq(e.volume \otimes mu)), "1e-9", "0"),
    event_draws_are_rows_of_the_event |-> (e.ok /\ e.predict) => \A i \in DOMAIN W : rows(i, e.keys \cap DOMAIN D.post[i]) # {},
    event_draws_have_weight |-> (e.ok /\ e.predict /\ evok) => \A i \in DOMAIN W :
        (rows(i, e.keys \cap DOMAIN D.post[i]) # {} /\ e.keys # {}) => \E k \in rows(i, e.keys \cap DOMAIN D.post[i]) : Negligible \prec Share(W[i], k),
    injection_draws_are_injections |-> (e.ok /\ e.predict /\ e.apply) => \A j \in 1..n : injrows(j) # {},
    injection_draws_have_weight |-> (e.ok /\ e.predict /\ e.apply /\ selok /\ Cardinality({k \in DOMAIN w : "1e-7" \prec Share(w, k)}) >= n /\ e.injkeys # {}) =>
        \A j \in 1..n : injrows(j) # {} => \E k \in injrows(j) : "1e-12" \prec Share(w, k) ]
\* at undefined weights, with a limit
UndefinedClauses(e) == [ completed |-> e.ok, undefined_rejected |-> (e.ok /\ e.varmax # "inf") => (IsNum(e.out) /\ IsLowest(Num(e.out))) ]
Clauses(D, e) == CASE e.op = "numpyro_nan" -> UndefinedClauses(e)
                   [] e.op = "numpyro" -> NumpyroClauses(D, [e EXCEPT !.keys = SeqSet(@), !.injkeys = SeqSet(@)])
                   [] e.op = "jit" -> JitClauses(D, e) [] e.op = "raw" -> RawClauses(e) [] e.op = "same" -> SameClauses(e) [] e.op = "attrs" -> AttrClauses(e)
                   [] e.op = "eval"  -> EvalClauses(D, e)
                   [] e.op = "extra" -> ExtraClauses(D, e)
                   [] e.op = "meta"  -> MetaClauses(D, e)
                   [] OTHER -> RateClauses(D, e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ LET e == Scen[s].ev[l + 1] IN Report(s, l + 1, Clauses(IF "D" \in DOMAIN e THEN e.D ELSE Scen[s].D, e))
=============================================================================
