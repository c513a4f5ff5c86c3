--------------------------- MODULE SelectionTrace ---------------------------
(***************************************************************************)
(* Conformance of the selection functions: ResamplingVT (C17) and GridVT   *)
(* (C18).                                                                  *)
(***************************************************************************)
EXTENDS Likelihood, Grid, TraceBase, FiniteSets
VARIABLES s, l
Num(o) == IF IsArr(o) /\ o.sh = <<>> THEN o.v[1] ELSE "no number"
IsNum(o) == IsArr(o) /\ o.sh = <<>>

(* -- ResamplingVT --------------------------------------------------------- *)
RECURSIVE ModelAt(_, _, _, _)
ModelAt(m, q, r, k) ==
  CASE m = "lin"  -> (q.a \otimes r.x[k]) \oplus (q.b \otimes r.y[k])
    [] m = "prod" -> (One \oplus (q.a \otimes r.x[k])) \otimes Exp(Neg(q.b \otimes r.y[k]))
    [] m = "zprod" -> ModelAt("prod", q, r, k) \otimes r.pz[k]    \* times a redshift model, values as reported
    [] OTHER      -> q.a \otimes r.x[k]
Wt(D, p) == [k \in 1..D.m |-> ModelAt(D.model, p, D.inj, k) \oslash D.inj.prior[k]]
Sure(mu, va, n) == n = "inf" \/ Abs(Sq(mu) \ominus ("4" \otimes n \otimes va)) \succ ("1e-9" \otimes Sq(mu)) \/ (Eq(mu, Zero) /\ Eq(va, Zero))
\* everything exact in binary: a case on the threshold is not converged
Halves(D, w, a) == D.total \in {"2", "4", "8"} /\ Eq(a, One) /\ D.nev \in {"1", "2"} /\ \A k \in DOMAIN w : \E u \in {"0", "0.5", "1"} : Eq(w[k], u)
InjClauses(D, e) ==
  LET w == Wt(D, e.p)  mu == Efficiency(w, D.total)  va == EfficiencyVar(w, D.total)
      ok == Converged(mu, va, D.nev)  sure == Sure(mu, va, D.nev) \/ (e.op = "call" /\ D.model = "col" /\ Halves(D, w, e.p.a))
      vtol == "1e-13" \otimes (Sum(Map(Sq, w)) \oslash Sq(D.total))    \* cancellation
      nearv(x) == Near(x, va, "1e-8", vtol)
      fac == IF D.nev = "inf" \/ Eq(mu, Zero) THEN Zero
             ELSE mu \otimes Exp(Neg((("3" \oplus D.nev) \otimes va) \oslash (Two \otimes Sq(mu))))
  IN
  [ efficiency |-> e.op = "eff" => (IsNum(e.mu) /\ Near(Num(e.mu), mu, "1e-10", "0")),
    variance   |-> e.op \in {"eff", "call"} => (IsNum(e.var) /\ nearv(Num(e.var))),
    no_cut     |-> (e.op = "call" /\ ~D.enforce) => (IsNum(e.mu) /\ Near(Num(e.mu), mu, "1e-10", "0")),
    untouched_if_converged |-> (e.op = "call" /\ D.enforce /\ sure /\ ok) => (IsNum(e.mu) /\ Near(Num(e.mu), mu, "1e-10", "0")),
    infinite_if_not |-> (e.op = "call" /\ D.enforce /\ sure /\ ~ok) => (IsNum(e.mu) /\ Num(e.mu) = "inf"),
    marginalised |-> (e.op = "marg" /\ sure /\ ok) => (IsNum(e.mu) /\ Near(Num(e.mu), fac, "1e-8", "0")),
    marginalised_cut |-> (e.op = "marg" /\ sure /\ ~ok) => (IsNum(e.mu) /\ Num(e.mu) = "inf"),
    one_number |-> e.op = "marg" => IsNum(e.mu),
    hypervolume |-> e.op = "hyper" => (IsNum(e.out) /\ Near(Num(e.out), (e.norm \otimes D.time) \oslash "1e9", e.tol, "0")) ]

(* -- GridVT ------------------------------------------------------------------ *)
\* axes: sequence of [key, v]; the value of the model at a grid point is
\* (1 + sum_i c_i x_i) * exp(-d x_1), c_i and d hyperparameters
Val(D, e, at, pos) ==
  (One \oplus Sum([j \in DOMAIN at |-> e.p[D.coef[j]] \otimes at[j]]))
  \otimes Exp(Neg(e.p.d \otimes at[1])) \otimes D.vt[pos + 1]
GridClauses(D, e) ==
  LET want == Integral([j \in DOMAIN D.axes |-> D.axes[j].v], LAMBDA at, pos : Val(D, e, at, pos)) IN
  [ number |-> IsNum(e.out),
    integral |-> IsNum(e.out) => Near(Num(e.out), want, "1e-9", "1e-12") ]

Clauses(D, e) == IF e.op = "grid" THEN GridClauses(D, e) ELSE InjClauses(D, e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].D, Scen[s].ev[l + 1]))
=============================================================================
