------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* The same request evaluated in different ways (C02).  A way is a mode    *)
(* (numpy; jax; jax compiled, where no Python branch may depend on a       *)
(* value), a form of the hyperparameters and a shape of the dataset.  The  *)
(* value depends on the request alone.                                     *)
(* Two formulations of the branching operators of the package are given:   *)
(* the one of the other modules, which branches on values, and a traced    *)
(* one that evaluates every alternative, NaN and infinity included, and    *)
(* selects.  The design check compares them.                               *)
(***************************************************************************)
EXTENDS Mass
Modes == {"numpy", "jax", "jit"}
BackendOf(m) == IF m = "numpy" THEN "numpy" ELSE "jax"
Forms == {"float", "array", "int"}
(* -- total arithmetic, as compiled code computes it -- *)
Nan == "nan"
Inf == "inf"
Bad(a) == a \in {Nan, Inf, "-inf"}
TDiv(a, b) == IF Bad(a) \/ Bad(b) THEN Nan
              ELSE IF Eq(b, Zero) THEN IF Eq(a, Zero) THEN Nan ELSE IF Zero \prec a THEN Inf ELSE "-inf"
              ELSE a \oslash b
NanTo(a, v) == IF a = Nan THEN v ELSE a
Clip(a, lo, hi) == IF a = Inf THEN hi ELSE IF a = "-inf" THEN lo ELSE MinR(MaxR(a, lo), hi)
Select(c, a, b) == IF c THEN a ELSE b
Ind(b) == IF b THEN One ELSE Zero
Expit(x) == IF "1e4" \prec x THEN One ELSE IF x \prec "-1e4" THEN Zero ELSE One \oslash (One \oplus Exp(Neg(x)))
TPowerLawNorm(a, hi, lo) ==
  LET k == One \oplus a IN
  Select(Eq(a, "-1"), TDiv(One, Ln(hi \oslash lo)), TDiv(k, Pow(hi, k) \ominus Pow(lo, k)))
TWindow(m, mmin, hi, dm) ==
  LET s == Clip(NanTo(TDiv(m \ominus mmin, dm), Zero), "1e-6", One \ominus "1e-6")
      e == (One \oslash s) \ominus (One \oslash (One \ominus s))
  IN Expit(Neg(e)) \otimes Ind(mmin \preceq m /\ m \preceq hi)
TNorm(n, dm) == (n \otimes Ind(~Eq(dm, Zero))) \oplus Ind(Eq(dm, Zero))
(* -- ways of giving the same request -- *)
Give(form, v) == IF form = "array" THEN <<v>> ELSE v
Read(form, r) == IF form = "array" THEN r[1] ELSE r
Size(sh) == IF sh = <<>> THEN 1 ELSE LET F[i \in 0..Len(sh)] == IF i = 0 THEN 1 ELSE F[i - 1] * sh[i] IN F[Len(sh)]
\* value of the request at the first points of the dataset, one for every element of the shape
Result(V, sh) == [sh |-> sh, v |-> SubSeq(V, 1, Size(sh))]
=============================================================================
