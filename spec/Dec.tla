-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Real arithmetic for the gwpopulation specifications.                    *)
(*                                                                         *)
(* TLC integers are 32 bits wide, so a real number is represented by the   *)
(* decimal numeral that denotes it, a string such as "0.25" or "1.5E-7"    *)
(* (integers are accepted as operands too).  The primitive operators below *)
(* are left uninterpreted here and given to TLC by java/Dec.java, which    *)
(* computes them with 36 significant digits; an IEEE double carries 16.    *)
(* "nan", "inf" and "-inf" are values the implementation may report; only  *)
(* IsFin, Near and equality are total on them in the design checks.  While *)
(* traces are validated (java/Dec.java, TOTAL) operations on them give     *)
(* "nan" and comparisons with nan are false.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL Prim == CHOOSE s \in STRING : TRUE

Add(a, b) == Prim          Sub(a, b) == Prim
Mul(a, b) == Prim          Div(a, b) == Prim
Neg(a)    == Prim          Abs(a)    == Prim
Lt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Le(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Eq(a, b)  == CHOOSE x \in BOOLEAN : TRUE   \* numeric equality ("1" vs "1.0")

Floor(a)  == CHOOSE n \in Nat : TRUE
IsFin(a)  == CHOOSE x \in BOOLEAN : TRUE   \* neither nan nor +-inf
Sqrt(a)   == Prim
Exp(a)    == Prim
Ln(a)     == Prim
Pow(a, b) == Prim                          \* a > 0, or b an integer
Phi(a)    == Prim                          \* standard normal distribution function
LnGamma(a) == Prim
BesselI0(a) == Prim
Cos(a)    == Prim
Pi        == Prim

a \oplus b  == Add(a, b)
a \ominus b == Sub(a, b)
a \otimes b == Mul(a, b)
a \oslash b == Div(a, b)
a \prec b   == Lt(a, b)
a \preceq b == Le(a, b)
a \succ b   == Lt(b, a)
a \succeq b == Le(b, a)
Zero == "0"
One  == "1"
Two  == "2"
Sq(a) == Mul(a, a)
MaxR(a, b) == IF Le(a, b) THEN b ELSE a
MinR(a, b) == IF Le(a, b) THEN a ELSE b

(* Folds over sequences; overridden for speed only. *)
RECURSIVE Sum(_), Trapz(_, _)
Sum(q) == IF q = <<>> THEN Zero ELSE Add(Head(q), Sum(Tail(q)))
\* trapezoidal rule for ordinates y over abscissae x
Trapz(y, x) ==
  IF Len(x) < 2 THEN Zero
  ELSE Add(Mul("0.5", Mul(Sub(x[2], x[1]), Add(y[1], y[2]))),
           Trapz(Tail(y), Tail(x)))
Linspace(a, b, n) ==
  [i \in 1..n |-> Add(a, Div(Mul(Sub(b, a), (i - 1)), (n - 1)))]
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
Mean(q) == Div(Sum(q), Len(q))

(* Closeness, total on non-finite observations. *)
Near(a, b, rtol, atol) ==
  IF ~IsFin(a) \/ ~IsFin(b) THEN a = b
  ELSE Le(Abs(Sub(a, b)), Add(atol, Mul(rtol, Abs(b))))
NearSeq(p, q, rtol, atol) ==
  Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i], rtol, atol)
AllFin(q) == \A i \in 1..Len(q) : IsFin(q[i])
NonNeg(q) == \A i \in 1..Len(q) : IsFin(q[i]) /\ Le(Zero, q[i])
=============================================================================
