---------------------------- MODULE SplineTrace ----------------------------
(* Conformance of the spline models (C08).  e.f node values, e.x0 node      *)
(* positions, e.pts[k] the coordinates of parameter k of all points.        *)
EXTENDS Spline, Mass, TraceBase
VARIABLES s, l
ATol == "1e-280"
Values(e) == IF e.reg THEN Regular(e.f, e.rms) ELSE e.f
\* limits decided by rounding, and jumps of the piecewise constant spline
Close(a, b) == Abs(a \ominus b) \preceq ("1e-11" \otimes MaxR(Abs(b), "0.001"))
EdgeV(e, v) ==
  \/ \E j \in {1, Len(e.x0)} : Close(v, e.x0[j]) /\ ~Eq(v, e.x0[j])
  \/ /\ e.cfg.kind = "nearest" /\ Inside(e.x0, v)
     /\ LET t == Pos(e.cfg, e.x0, v) \oplus "0.5" IN Close(t, Floor(t)) \/ Close(t, Floor(t) + 1)
N(e) == Len(e.pts[1])
Base(e) ==
  LET o == e.out IN
  [ evaluates |-> IsArr(o) /\ Len(o.v) = N(e),
    shape |-> IsArr(o) => o.sh = e.sh ]
SpinClauses(e) ==
  LET o == e.out  n == N(e)
      ok == IsArr(o) /\ Len(o.v) = n
      y == Values(e)
      M == Second(e.cfg.kind, y)
      nrm == IF ok THEN SplineNorm(e.cfg, e.x0, y, M) ELSE One
      K == DOMAIN e.pts
      RECURSIVE Prod(_, _)
      Prod(i, k) == IF k > Len(e.pts) THEN One
                    ELSE LET a == Factor(e.cfg, e.x0, y, M, e.pts[k][i]) IN IF a = Zero THEN Zero ELSE (a \oslash nrm) \otimes Prod(i, k + 1)
      J == IF ok THEN {i \in 1..n : \A k \in K : ~EdgeV(e, e.pts[k][i])} ELSE {}
      want == [i \in J |-> Prod(i, 1)]
  IN [ valid |-> \A i \in J : IsFin(o.v[i]) /\ Zero \preceq o.v[i],
       zero_outside |-> \A i \in J : (\E k \in K : ~Inside(e.x0, e.pts[k][i])) => Eq(o.v[i], Zero),
       value |-> \A i \in J : Near(o.v[i], want[i], "1e-7", ATol) ]
\* adding a constant to all node values changes nothing
ShiftClauses(e) ==
  [ shift_invariant |-> IsArr(e.out) /\ IsArr(e.shifted) /\ NearSeq(e.shifted.v, e.out.v, "1e-8", ATol) ]
(* -- the spline mass model -- *)
MassCfg(e) == [mmin |-> e.cfg.lo, mmax |-> e.cfg.hi, nm |-> e.cfg.grid, nq |-> e.cfg.nq, primary |-> "power_law_mass"]
SplineMass(e) ==
  LET o == e.out  n == N(e)
      ok == IsArr(o) /\ Len(o.v) = n
      y == Values(e)
      M == Second(e.cfg.kind, y)
      c == MassCfg(e)
      P1(m) == LET w == Window(m, e.p.mmin, c.mmax, e.p.delta_m) IN
               IF w = Zero THEN Zero
               ELSE w \otimes Pl(m, e.p.alpha, e.p) \otimes Factor(e.cfg, e.x0, y, M, m)
      g == MGrid(c)
      nrm == IF ok THEN Trapz([i \in DOMAIN g |-> P1(g[i])], g) ELSE One
      Edge(i) == \/ EdgeV(e, e.pts[1][i]) \/ Close(e.pts[1][i], e.p.mmin) \/ (Close(e.pts[1][i], e.p.mmax) /\ ~Eq(e.pts[1][i], e.p.mmax))
                 \/ Close(e.pts[1][i] \otimes e.pts[2][i], e.p.mmin)
      J == IF ok THEN {i \in 1..n : ~Edge(i)} ELSE {}
      want == [i \in J |-> LET a == P1(e.pts[1][i]) IN
                 IF a = Zero THEN Zero ELSE (a \oslash nrm) \otimes SmoothQ(e.pts[2][i], e.pts[1][i], e.p, c)]
  IN [ valid |-> \A i \in J : IsFin(o.v[i]) /\ Zero \preceq o.v[i],
       zero_outside |-> \A i \in J : want[i] = Zero => Abs(o.v[i]) \preceq ATol,
       value |-> \A i \in J : Near(o.v[i], want[i], "1e-7", ATol) ]
Clauses(e) == CASE e.op = "spline" -> Base(e) @@ SpinClauses(e)
                [] e.op = "shift" -> ShiftClauses(e)
                [] OTHER -> Base(e) @@ SplineMass(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
