------------------------------- MODULE Cosmo -------------------------------
(***************************************************************************)
(* Distances and volumes of a flat cosmology with dark energy of constant  *)
(* equation of state; c = [H0, Om0, w0], distances in Mpc.                 *)
(***************************************************************************)
EXTENDS Dec
\* nodes and weights of the 16 point Gauss-Legendre rule on [-1, 1]
GL == <<<<"0.9894009349916499325961541734503326", "0.0271524594117540948517805724560181">>,
  <<"0.9445750230732325760779884155346083", "0.06225352393864789286284383699437769">>,
  <<"0.8656312023878317438804678977123931", "0.09515851168249278480992510760224623">>,
  <<"0.7554044083550030338951011948474423", "0.1246289712555338720524762821920164">>,
  <<"0.617876244402643748446671764048791", "0.1495959888165767320815017305474785">>,
  <<"0.4580167776572273863424194429835776", "0.16915651939500253818931207903036">>,
  <<"0.2816035507792589132304605014604961", "0.1826034150449235888667636679692199">>,
  <<"0.09501250983763744018531933542495806", "0.1894506104550684962853967232082831">>,
  <<"-0.09501250983763744018531933542495806", "0.1894506104550684962853967232082831">>,
  <<"-0.2816035507792589132304605014604961", "0.1826034150449235888667636679692199">>,
  <<"-0.4580167776572273863424194429835776", "0.16915651939500253818931207903036">>,
  <<"-0.617876244402643748446671764048791", "0.1495959888165767320815017305474785">>,
  <<"-0.7554044083550030338951011948474423", "0.1246289712555338720524762821920164">>,
  <<"-0.8656312023878317438804678977123931", "0.09515851168249278480992510760224623">>,
  <<"-0.9445750230732325760779884155346083", "0.06225352393864789286284383699437769">>,
  <<"-0.9894009349916499325961541734503326", "0.0271524594117540948517805724560181">>>>
GaussLegendre(F(_), a, b) ==
  LET h == (b \ominus a) \oslash Two   m == (a \oplus b) \oslash Two
  IN  h \otimes Sum([k \in 1..16 |-> GL[k][2] \otimes F(m \oplus (h \otimes GL[k][1]))])
\* composite rule with n panels
Quad(F(_), a, b, n) ==
  LET w == Div(b \ominus a, n)
  IN  Sum([i \in 1..n |-> GaussLegendre(F, a \oplus (w \otimes (i - 1)), a \oplus (w \otimes i))])
SpeedOfLight == "299792.458"     \* km/s
HubbleDistance(c) == SpeedOfLight \oslash c.H0
Cube(a) == a \otimes Sq(a)
E2(c, z) == (c.Om0 \otimes Cube(One \oplus z)) \oplus
  ((One \ominus c.Om0) \otimes (IF Eq(c.w0, "-1") THEN One ELSE Pow(One \oplus z, "3" \otimes (One \oplus c.w0))))
InvE(c, z) == One \oslash Sqrt(E2(c, z))
ComovingDistance(c, z) ==
  LET F(x) == InvE(c, x) IN HubbleDistance(c) \otimes Quad(F, Zero, z, 1 + Floor(z))
LuminosityDistance(c, z) == (One \oplus z) \otimes ComovingDistance(c, z)
DDLDz(c, z) == ComovingDistance(c, z) \oplus ((One \oplus z) \otimes HubbleDistance(c) \otimes InvE(c, z))
\* full sky, Mpc^3
DVcDz(c, z) == "4" \otimes Pi \otimes HubbleDistance(c) \otimes Sq(ComovingDistance(c, z)) \otimes InvE(c, z)
\* the named cosmologies
Named(n) ==
  CASE n = "Planck15" -> [H0 |-> "67.74", Om0 |-> "0.3075", w0 |-> "-1"]
    [] n = "Planck15_LAL" -> [H0 |-> "67.9", Om0 |-> "0.3065", w0 |-> "-1"]
    [] n = "Planck13" -> [H0 |-> "67.77", Om0 |-> "0.30712", w0 |-> "-1"]
    [] n = "Planck18" -> [H0 |-> "67.66", Om0 |-> "0.30966", w0 |-> "-1"]
    [] n = "WMAP9" -> [H0 |-> "69.32", Om0 |-> "0.2865", w0 |-> "-1"]
    [] n = "WMAP7" -> [H0 |-> "70.4", Om0 |-> "0.272", w0 |-> "-1"]
    [] n = "WMAP5" -> [H0 |-> "70.2", Om0 |-> "0.277", w0 |-> "-1"]
    [] n = "WMAP3" -> [H0 |-> "70.1", Om0 |-> "0.276", w0 |-> "-1"]
    [] n = "WMAP1" -> [H0 |-> "72", Om0 |-> "0.257", w0 |-> "-1"]
NamedCosmologies == {"Planck15", "Planck15_LAL", "Planck13", "Planck18", "WMAP9", "WMAP7", "WMAP5", "WMAP3", "WMAP1"}
\* the cosmology selected by a model: fixed, or given by the hyperparameters
Cosmology(name, p) ==
  CASE name = "FlatwCDM" -> [H0 |-> p.H0, Om0 |-> p.Om0, w0 |-> p.w0]
    [] name = "FlatLambdaCDM" -> [H0 |-> p.H0, Om0 |-> p.Om0, w0 |-> "-1"]
    [] OTHER -> Named(name)
CosmologyNames(name) ==
  CASE name = "FlatwCDM" -> {"H0", "Om0", "w0"} [] name = "FlatLambdaCDM" -> {"H0", "Om0"} [] OTHER -> {}
=============================================================================
