------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* Spline models (C08): exponentials of splines through evenly spaced      *)
(* nodes, truncated to the node range and normalised over it.              *)
(*  cfg = [n, kind, log, lo, hi, grid]   number of nodes, order, nodes     *)
(*        evenly spaced in the logarithm, range and number of points of    *)
(*        the normalisation grid                                           *)
(***************************************************************************)
EXTENDS Dec
(* Second derivatives (node distance 1) of the cubic spline with            *)
(* not-a-knot end conditions on n >= 4 even nodes: M_{i-1} + 4 M_i + M_{i+1} *)
(* = 6 d_i with d the second differences and a third derivative that is     *)
(* continuous at the second and second to last node, i.e. M_2 = d_2.        *)
D2(y, i) == (y[i-1] \oplus y[i+1]) \ominus (Two \otimes y[i])
RECURSIVE Elim(_, _, _), Back(_, _, _, _)
\* forward elimination of the rows 3..n-2: <<c, d>> with M_i = d_i - c_i M_{i+1}
Elim(y, n, i) ==
  IF i = 2 THEN <<<<Zero, Zero>>, <<Zero, D2(y, 2)>>>>
  ELSE LET e == Elim(y, n, i - 1)
           den == "4" \ominus e[i-1][1]
       IN  e \o <<<<One \oslash den, (("6" \otimes D2(y, i)) \ominus e[i-1][2]) \oslash den>>>>
\* back substitution from M_{n-1}
Back(y, n, e, i) ==
  IF i = n - 1 THEN <<D2(y, n - 1)>>
  ELSE LET r == Back(y, n, e, i + 1) IN <<e[i][2] \ominus (e[i][1] \otimes r[1])>> \o r
Curv(y) ==
  LET n == Len(y)
      m == Back(y, n, Elim(y, n, n - 2), 2)          \* M_2 .. M_{n-1}
  IN  <<(Two \otimes m[1]) \ominus m[2]>> \o m \o <<(Two \otimes m[n-2]) \ominus m[n-3]>>
\* value at t, in units of the node distance from the first node
Cubic(y, M, t) ==
  LET n == Len(y)
      i == IF t \prec Zero THEN 0 ELSE IF Floor(t) > n - 2 THEN n - 2 ELSE Floor(t)
      b == t \ominus i   a == One \ominus b
      C(u) == ((u \otimes Sq(u)) \ominus u) \oslash "6"
  IN  ((a \otimes y[i+1]) \oplus (b \otimes y[i+2])) \oplus ((C(a) \otimes M[i+1]) \oplus (C(b) \otimes M[i+2]))
Linear(y, t) ==
  LET n == Len(y)
      i == IF t \prec Zero THEN 0 ELSE IF Floor(t) > n - 2 THEN n - 2 ELSE Floor(t)
      b == t \ominus i
  IN  ((One \ominus b) \otimes y[i+1]) \oplus (b \otimes y[i+2])
Nearest(y, t) ==
  LET n == Len(y)
      r == IF t \prec Zero THEN 0 ELSE Floor(t \oplus "0.5")
      i == IF r > n - 1 THEN n - 1 ELSE r
  IN  y[i+1]
Interp(kind, y, M, t) == CASE kind = "cubic" -> Cubic(y, M, t) [] kind = "linear" -> Linear(y, t) [] OTHER -> Nearest(y, t)
Second(kind, y) == IF kind = "cubic" THEN Curv(y) ELSE <<>>

Rms(y) == Sqrt(Mean(Map(Sq, y)))
Regular(y, rms) == LET r == Rms(y) IN [i \in DOMAIN y |-> (y[i] \otimes rms) \oslash r]
Coord(cfg, v) == IF cfg.log THEN Ln(v) ELSE v
Pos(cfg, x, v) == \* position of v in units of the node distance; x the node positions
  LET a == Coord(cfg, x[1])  b == Coord(cfg, x[Len(x)])
  IN  ((Coord(cfg, v) \ominus a) \otimes (Len(x) - 1)) \oslash (b \ominus a)
Inside(x, v) == x[1] \preceq v /\ v \preceq x[Len(x)]
Factor(cfg, x, y, M, v) == IF Inside(x, v) THEN Exp(Interp(cfg.kind, y, M, Pos(cfg, x, v))) ELSE Zero
SplineNorm(cfg, x, y, M) ==
  LET g == Linspace(cfg.lo, cfg.hi, cfg.grid)
  IN  Trapz([i \in DOMAIN g |-> Factor(cfg, x, y, M, g[i])], g)
=============================================================================
