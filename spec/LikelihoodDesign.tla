-------------------------- MODULE LikelihoodDesign --------------------------
(***************************************************************************)
(* Design check of Likelihood over a lattice of weights (zero, NaN and     *)
(* infinite ones included), detection probabilities and thresholds, all of *)
(* which are replayed in the code.                                         *)
(***************************************************************************)
EXTENDS Likelihood, TLC, Json, FiniteSets
CONSTANTS Vals, Sels, Vars, Cuts
VARIABLES W, s, v, cut, done
Order == <<"0", "0.5", "2", "nan", "inf">>
Pos(x) == CHOOSE i \in 1..5 : Order[i] = x
Rows == {<<a, b>> : a, b \in Vals} 
SortedRows == {r \in Rows : Pos(r[1]) <= Pos(r[2])}
DInit == /\ W \in {<<r, q>> : r, q \in SortedRows} /\ s \in Sels /\ v \in Vars /\ cut \in Cuts /\ done = FALSE
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<W, s, v, cut>>
         /\ PrintT("CASE|" \o ToJson([W |-> W, s |-> s, v |-> v, cut |-> cut]))
DSpec == DInit /\ [][DNext]_<<W, s, v, cut, done>>

R(n) == IF IsFin(s) /\ Zero \prec s THEN Div(n, s) ELSE One
AlwaysFinite == done => \A k \in {"marg", "rate", "null"} : IsFin(Ratio(k, W, s, v, One, cut))
NoCutNoChange == (done /\ Defined("marg", W, s, One)) => Ratio("marg", W, s, v, One, "inf") = Ln0("marg", W, s, One)
EventOrder == done => Ratio("marg", W, s, v, One, cut) = Ratio("marg", <<W[2], W[1]>>, s, v, One, cut)
SampleOrder == done => Ratio("marg", W, s, v, One, cut)
                     = Ratio("marg", [i \in DOMAIN W |-> <<W[i][2], W[i][1]>>], s, v, One, cut)
\* the marginalised likelihood is the rate likelihood at its maximum R = N/s, up to N ln N - N
Profile == (done /\ Defined("marg", W, s, One)) =>
  LET n == Len(W)
      c == (Ln(n) \otimes n) \ominus n
      m == Ln0("marg", W, s, One) \oplus c
  IN /\ Near(Ln0("rate", W, s, R(n)), m, "1e-25", "1e-25")
     /\ \A f \in {"0.5", "0.9", "1.1", "3"} : Ln0("rate", W, s, R(n) \otimes f) \prec m
     \* and the selection variances agree there
     /\ Near(SelVar("rate", n, s, v, R(n)), SelVar("marg", n, s, v, One), "1e-25", "1e-25")
\* a looser cut never rejects what a tighter one accepts
CutMonotone == done => \A a, b \in Cuts :
  (a # "inf" /\ (b = "inf" \/ a \preceq b) /\ ~IsLowest(Ratio("marg", W, s, v, One, a)))
     => Ratio("marg", W, s, v, One, b) = Ratio("marg", W, s, v, One, a)
VarNonNegative == (done /\ Defined("marg", W, s, One)) => Zero \preceq Var0("marg", W, s, v, One)
\* equal weights carry no Monte Carlo uncertainty
NoSpread == (done /\ Defined("marg", W, s, One)) =>
  \A i \in DOMAIN W : (W[i][1] = W[i][2]) => Eq(EventVar(W[i]), Zero)
GammaOk == done => /\ Near(GammaCdf("0", 3), Zero, "0", "1e-30")
                   /\ Near(GammaCdf("60", 3), One, "1e-15", "0")
                   /\ Near(GammaCdf("2", 1), One \ominus Exp("-2"), "1e-30", "0")
=============================================================================
