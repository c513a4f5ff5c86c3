-------------------------------- MODULE Grid --------------------------------
(* Trapezoidal integrals over product grids (C18).  axes: sequence of       *)
(* sequences of coordinates; F(at, pos): the integrand at coordinates at,   *)
(* with pos the row-major position of the point.                            *)
EXTENDS Dec
RECURSIVE IntegralFrom(_, _, _, _)
IntegralFrom(axes, F(_, _), at, pos) ==
  LET i == Len(at) + 1 IN
  IF i > Len(axes) THEN F(at, pos)
  ELSE LET x == axes[i] IN
       Trapz([k \in DOMAIN x |-> IntegralFrom(axes, F, Append(at, x[k]), pos * Len(x) + (k - 1))], x)
Integral(axes, F(_, _)) == IntegralFrom(axes, F, <<>>, 0)
=============================================================================
