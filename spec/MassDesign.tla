----------------------------- MODULE MassDesign -----------------------------
(***************************************************************************)
(* Design check of the closed-form mass models and enumeration of the      *)
(* evaluation requests (model, hyperparameters, boundary points) that are  *)
(* replayed in the code.                                                   *)
(***************************************************************************)
EXTENDS Mass, Json
CONSTANTS Masses, Slopes, Lams, Peaks, Fine
VARIABLES fn, p, done
QMasses == {<<"5", "50", "0.4", "100">>, <<"2", "100", "0.1", "100">>, <<"10", "12", "0.75", "60">>}
TMasses == QMasses \cup {<<"0.5", "2.5", "0.5", "3">>, <<"5", "150", "0.25", "100">>}
\* alpha, beta, alpha_1, alpha_2
QSlopes == {<<"3.5", "1.1", "1.6", "5.6">>, <<"1", "-1", "1", "1">>, <<"-1.5", "0", "-2", "3">>, <<"0", "-3.2", "4", "-1">>}
TSlopes == QSlopes \cup {<<"12", "8", "9", "0">>, <<"-1", "-0.5", "0", "1">>}
QLams == {<<"0.1", "0.4">>, <<"0", "0.3">>, <<"1", "1">>, <<"0.75", "0">>}
TLams == QLams \cup {<<"1", "0.5">>}
\* mpp, sigpp, mpp_2, sigpp_2
QPeaks == {<<"35", "4", "11", "2">>}
TPeaks == QPeaks \cup {<<"3", "10", "70", "1">>}
All == [mmin |-> "", mmax |-> "", break_fraction |-> "", gaussian_mass_maximum |-> "", alpha |-> "", beta |-> "",
        alpha_1 |-> "", alpha_2 |-> "", lam |-> "", lam_1 |-> "", mpp |-> "", sigpp |-> "",
        mpp_1 |-> "", sigpp_1 |-> "", mpp_2 |-> "", sigpp_2 |-> ""]
Make(m, a, lm, k) ==
  [mmin |-> m[1], mmax |-> m[2], break_fraction |-> m[3], gaussian_mass_maximum |-> m[4],
   alpha |-> a[1], beta |-> a[2], alpha_1 |-> a[3], alpha_2 |-> a[4], lam |-> lm[1], lam_1 |-> lm[2],
   mpp |-> k[1], sigpp |-> k[2], mpp_1 |-> k[1], sigpp_1 |-> k[2], mpp_2 |-> k[3], sigpp_2 |-> k[4]]
Only(r, names) == [n \in names |-> r[n]]
Fns == OneD \cup RatioFns \cup Pairs
\* interior points, limits of the ranges and points on both sides of them
MPts(r) == LET lo == r.mmin  hi == r.mmax
               b == IF "break_fraction" \in DOMAIN r THEN Break(r) ELSE (lo \oplus hi) \oslash Two
               w == "1e-7"
           IN <<lo, lo \oplus w, lo \ominus w, lo \oslash Two, hi, hi \ominus w, hi \oplus w, hi \otimes "1.3", b, b \ominus w, b \oplus w,
                "35", "11", lo \oplus ((hi \ominus lo) \oslash "7"), lo \oplus ((hi \ominus lo) \otimes "0.8"), GMax(r), GMax(r) \oplus w,
                (lo \oplus GMax(r)) \oslash Two>>
QPts == <<"0.001", "0.1", "0.35", "0.6", "0.9", "0.999", "1", "1.0001">>
Cart(a, b) == [k \in 1..(Len(a) * Len(b)) |-> <<a[1 + ((k - 1) \div Len(b))], b[1 + ((k - 1) % Len(b))]>>]
Points == IF fn \in OneD THEN [mass |-> MPts(p)]
          ELSE LET c == IF fn \in RatioFns THEN Cart(MPts(p), QPts) ELSE Cart(MPts(p), SubSeq(MPts(p), 1, 14))
                   a == [k \in DOMAIN c |-> c[k][1]]  b == [k \in DOMAIN c |-> c[k][2]]
               IN IF fn \in RatioFns THEN [mass_1 |-> a, mass_ratio |-> b] ELSE [mass_1 |-> a, mass_2 |-> b]
DInit == /\ fn \in Fns /\ done = FALSE
         /\ p \in {Only(Make(m, a, lm, k), Params(fn)) : m \in Masses, a \in Slopes, lm \in Lams, k \in Peaks}
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<fn, p>>
         /\ PrintT("CASE|" \o ToJson([fn |-> fn, p |-> p, x |-> Points]))
DSpec == DInit /\ [][DNext]_<<fn, p, done>>

(* -- invariants -- *)
\* composite midpoint rule; the pieces between discontinuities are integrated separately
Piece(F(_), lo, hi) ==
  IF hi \preceq lo THEN Zero
  ELSE LET w == (hi \ominus lo) \oslash Fine
       IN  w \otimes Sum([i \in 1..Fine |-> F(lo \oplus (w \otimes Div(2 * i - 1, 2)))])
Top(r) == MaxR(r.mmax, IF "gaussian_mass_maximum" \in DOMAIN r THEN GMax(r) ELSE r.mmax)
Integral1(F(_), r) ==
  LET b == IF "break_fraction" \in DOMAIN r THEN Break(r) ELSE r.mmin \oplus ((r.mmax \ominus r.mmin) \oslash "5")
      e == r.mmin \oplus ((b \ominus r.mmin) \oslash "8")
  IN  Sum(<<Piece(F, r.mmin, e), Piece(F, e, b), Piece(F, b, r.mmax), Piece(F, r.mmax, Top(r))>>)
Mild(r) == \A n \in {"alpha", "alpha_1", "alpha_2"} \cap DOMAIN r : Abs(r[n]) \preceq "6"
Normalised == (done /\ fn \in OneD /\ Mild(p)) =>
  LET F(m) == Primary(fn, m, p) IN Near(Integral1(F, p), One, "0.02", "0")
RatioNormalised == (done /\ fn \in RatioFns) =>
  LET m1 == (p.mmin \otimes "3" \oplus p.mmax) \oslash "4"
      F(q) == MassRatio(q, m1, p.beta, p)
      lo == p.mmin \oslash m1  mid == (lo \oplus One) \oslash Two
  IN  Near(Piece(F, lo, mid) \oplus Piece(F, mid, One), One, "0.02", "0")
\* continuity of the broken power law at the break
Continuous == (done /\ "break_fraction" \in DOMAIN p) =>
  LET b == Break(p) IN Near(BrokenPl(b \ominus "1e-20", p), BrokenPl(b \oplus "1e-20", p), "1e-15", "0")
\* exact zeros outside of the ranges
Vanishes == done =>
  CASE fn \in OneD -> Primary(fn, p.mmin \ominus "1e-20", p) = Zero \/ Eq(Primary(fn, p.mmin \ominus "1e-20", p), Zero)
    [] fn \in RatioFns -> /\ Eq(MassModel(fn, [mass_1 |-> p.mmax, mass_ratio |-> (p.mmin \oslash p.mmax) \ominus "1e-20"], p), Zero)
                       /\ Eq(MassModel(fn, [mass_1 |-> p.mmax, mass_ratio |-> "1.00000001"], p), Zero)
    [] OTHER -> Eq(MassModel(fn, [mass_1 |-> p.mmin, mass_2 |-> p.mmin \oplus "1e-20"], p), Zero)
\* the limits of the mixtures
Limits == (done /\ "lam" \in DOMAIN p) =>
  LET m == (p.mmin \oplus p.mmax) \oslash Two IN
  /\ (Eq(p.lam, Zero) /\ fn = "two_component_single") => Eq(TwoComp(m, p.alpha, p), Pl(m, p.alpha, p))
  /\ (Eq(p.lam, One) /\ fn = "three_component_single" /\ Eq(p.lam_1, One)) => Eq(ThreeComp(m, p), Peak(m, p.mpp_1, p.sigpp_1, p))
\* the identical pairing integrates to one: half of the square of the one-dimensional integral, times two
IdenticalSymmetric == (done /\ fn = "power_law_primary_secondary_identical") =>
  LET a == p.mmin \oplus "0.25"  b == p.mmax \ominus "0.25"
  IN  Near(Pair(fn, [mass_1 |-> b, mass_2 |-> a], p), Two \otimes Pl(a, p.alpha, p) \otimes Pl(b, p.alpha, p), "1e-30", "0")
=============================================================================
