----------------------------- MODULE SpinTrace -----------------------------
(* Conformance of models.spin with Spin (C07).                              *)
EXTENDS Spin, TraceBase
VARIABLES s, l
Pt(e, i) == [c \in DOMAIN e.x |-> e.x[c][i]]
NPts(e) == Len(e.x[CHOOSE c \in DOMAIN e.x : TRUE])
RTol(e) == IF e.be = "jax" /\ "a_1" \in DOMAIN e.x THEN "2e-5" ELSE "1e-8"
ATol == "1e-290"
\* accuracy of the tabulated normalisation: 500 x 250 points, and densities may be narrow
NormTol(p) == "1e-4" \oplus Sq("0.006" \oslash (MinR(p.sigma_chi_eff, p.sigma_chi_p) \otimes Sqrt(One \ominus Sq(p.spin_covariance))))
Common(e) ==
  LET o == e.out  n == NPts(e) IN
  [ evaluates |-> IsArr(o) /\ Len(o.v) = n,
    shape |-> IsArr(o) => o.sh = e.sh ]
Plain(e) ==
  LET o == e.out  n == NPts(e)
      ok == IsArr(o) /\ Len(o.v) = n
      want == IF ok THEN [i \in 1..n |-> SpinModel(e.fn, Pt(e, i), e.p)] ELSE <<>>
      J == IF ok THEN {i \in 1..n : want[i] # "edge"} ELSE {}
  IN [ valid |-> \A i \in J : IsFin(o.v[i]) /\ Zero \preceq o.v[i],
       zero_outside |-> \A i \in J : want[i] = Zero => (IsFin(o.v[i]) /\ Eq(o.v[i], Zero)),
       value |-> \A i \in J : Near(o.v[i], want[i], RTol(e), ATol) ]
\* the reference point is the one with the largest density
Joint(e) ==
  LET o == e.out  n == NPts(e)
      ok == IsArr(o) /\ Len(o.v) = n /\ AllFin(o.v)
      sh == IF ok THEN [i \in 1..n |-> JointShape(Pt(e, i), e.p)] ELSE <<>>
      top == IF ok THEN CHOOSE i \in 1..n : \A j \in 1..n : sh[j] \preceq sh[i] ELSE 0
      nrm == IF ok THEN JointNorm(e.p, 400) ELSE One
      c == IF ok /\ sh[top] # Zero THEN o.v[top] \oslash sh[top] ELSE One
  IN [ valid |-> ok /\ NonNeg(o.v),
       zero_outside |-> ok => \A i \in 1..n : sh[i] = Zero => Eq(o.v[i], Zero),
       correlated_shape |-> (ok /\ sh[top] # Zero) => \A i \in 1..n : Near(o.v[i], c \otimes sh[i], "1e-8", ATol),
       normalised |-> (ok /\ sh[top] # Zero) => Near(c \otimes nrm, One, NormTol(e.p), Zero) ]
Same(e) ==   \* identical components: the iid model equals the independent one
  [ iid_equals_independent |-> IsArr(e.out) /\ IsArr(e.ind) /\ NearSeq(e.out.v, e.ind.v, "1e-12", ATol) ]
Clauses(e) == IF e.op = "same" THEN Same(e)
              ELSE IF e.fn = "GaussianChiEffChiP" THEN Common(e) @@ Joint(e) ELSE Common(e) @@ Plain(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
