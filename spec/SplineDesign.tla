---------------------------- MODULE SplineDesign ----------------------------
(***************************************************************************)
(* Design check of the splines and enumeration of configurations.          *)
(***************************************************************************)
EXTENDS Spline, TLC, Json
CONSTANTS Counts, Ranges, Shapes
VARIABLES cfg, y, done
QCounts == {4, 5, 7}
TCounts == {4, 5, 6, 8, 10, 12}
QRanges == {<<"0", "1", FALSE>>, <<"-1", "1", FALSE>>, <<"2", "100", TRUE>>}
TRanges == QRanges \cup {<<"0.1", "0.9", FALSE>>, <<"1", "7", TRUE>>}
QShapes == {"flat", "slope", "zigzag", "bump", "parabola"}
Val(k, i, n) == CASE k = "flat" -> "0.7"
                  [] k = "slope" -> Div(3 * i, n) \ominus "1"
                  [] k = "zigzag" -> IF i % 2 = 0 THEN "1.5" ELSE "-1.25"
                  [] k = "bump" -> IF i = 2 THEN "3" ELSE "0.1"
                  [] k = "parabola" -> Sq(Div(i, n) \ominus "0.4") \otimes "4"
Nodes == IF cfg.log THEN [i \in 1..cfg.n |-> Exp(Linspace(Ln(cfg.lo), Ln(cfg.hi), cfg.n)[i])] ELSE Linspace(cfg.lo, cfg.hi, cfg.n)
DInit == /\ done = FALSE
         /\ \E n \in Counts, r \in Ranges, k \in {"cubic", "linear", "nearest"}, sh \in Shapes, ex \in {0, 2}, rg \in BOOLEAN :
              /\ cfg = [n |-> n, kind |-> k, log |-> r[3], lo |-> r[1], hi |-> r[2], grid |-> 10 * n, extra |-> ex, reg |-> rg, built |-> n - ex]
              /\ n - ex >= 4 /\ y = [i \in 1..n |-> Val(sh, i, n)]
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, y>>
         /\ PrintT("CASE|" \o ToJson([cfg |-> cfg, y |-> y]))
DSpec == DInit /\ [][DNext]_<<cfg, y, done>>
M == Second(cfg.kind, y)
\* interpolation
Passes == done => \A i \in 1..cfg.n : Near(Interp(cfg.kind, y, M, i - 1), y[i], "1e-28", "1e-28")
\* the system of equations of the cubic spline, including the end conditions
System == (done /\ cfg.kind = "cubic") =>
  /\ \A i \in 2..(cfg.n - 1) : Near((M[i-1] \oplus M[i+1]) \oplus ("4" \otimes M[i]), "6" \otimes D2(y, i), "1e-27", "1e-27")
  /\ Near(M[2] \ominus M[1], M[3] \ominus M[2], "1e-27", "1e-27")
  /\ Near(M[cfg.n] \ominus M[cfg.n - 1], M[cfg.n - 1] \ominus M[cfg.n - 2], "1e-27", "1e-27")
\* polynomials up to the order of the spline are reproduced
Exact == (done /\ cfg.kind = "cubic") =>
  LET P(t) == ((t \otimes Sq(t)) \ominus (Two \otimes Sq(t))) \oplus "0.5"
      q == [i \in 1..cfg.n |-> P(Add(i - 1, 0))]
  IN  Near(Cubic(q, Curv(q), "1.37"), P("1.37"), "1e-26", "1e-26")
Smooth == (done /\ cfg.kind = "cubic") => \* C1 at the third node
  LET h == "1e-9" F(t) == Cubic(y, M, t) IN
  Near(F("2") \ominus F("1.999999999"), F("2.000000001") \ominus F("2"), "1e-3", "1e-15")
Density == done =>
  LET f == IF cfg.reg /\ Rms(y) # Zero THEN Regular(y, "1.3") ELSE y
      m == Second(cfg.kind, f)
  IN /\ SplineNorm(cfg, Nodes, f, m) \succ Zero
     /\ (cfg.reg => Near(Rms(f), "1.3", "1e-28", "0"))
     /\ Factor(cfg, Nodes, f, m, cfg.hi \oplus "1e-9") = Zero
     /\ Factor(cfg, Nodes, f, m, cfg.lo \ominus "1e-9") = Zero
=============================================================================
