----------------------------- MODULE FrameTrace -----------------------------
(* Conformance of detector_frame_to_source_frame and of CosmoModel (C10).   *)
EXTENDS Frame, TraceBase
VARIABLES s, l
\* accuracy of the numerical inversion of the distance
ZTol == "2e-4"
Tight == "1e-9"
N(e) == Len(e.data[CHOOSE k \in DOMAIN e.data : TRUE])
Shape(e) == /\ e.ok /\ DOMAIN e.samples = OutKeys(DOMAIN e.data) /\ Len(e.jac) = N(e)
            /\ \A k \in DOMAIN e.samples : Len(e.samples[k]) = N(e)
Fin(e) == \A k \in DOMAIN e.samples : AllFin(e.samples[k])
Convert(e) ==
  LET c == Cosmology(e.cosmo, e.p)  ks == DOMAIN e.data  n == N(e)
      conv == Convertible(ks)
      sh == conv /\ Shape(e)
      fin == sh /\ Fin(e)
      dist == "luminosity_distance" \in ks
      \* a given redshift is kept; the distance then enters through its Jacobian, at the redshift of the distance
      \* (e.zdist: the conversion of the distance alone, itself judged)
      both == {"luminosity_distance", "redshift"} \subseteq ks
  IN [ raises |-> ~conv => (~e.ok /\ e.exc = "ValueError"),
       keys   |-> conv => Shape(e),
       finite |-> sh => Fin(e),
       redshift |-> fin => \A i \in 1..n :
           IF "redshift" \in ks THEN Eq(e.samples.redshift[i], e.data.redshift[i])
           ELSE Near(LuminosityDistance(c, e.samples.redshift[i]), e.data.luminosity_distance[i], ZTol, Zero),
       source |-> fin => \A k \in ks \cap Detector : \A i \in 1..n :
           Near(e.samples[Source(k)][i], e.data[k][i] \oslash (One \oplus e.samples.redshift[i]), "1e-12", Zero),
       redshift_of_distance |-> both => (Len(e.zdist) = n /\ \A i \in 1..n :
           Near(LuminosityDistance(c, e.zdist[i]), e.data.luminosity_distance[i], ZTol, Zero)),
       others |-> fin => \A k \in ks \ (Detector \cup {"luminosity_distance", "redshift"}) : \A i \in 1..n : Eq(e.samples[k][i], e.data[k][i]),
       jacobian |-> fin => \A i \in 1..n :
           Near(e.jac[i], IF both THEN Jacobian(c, e.samples.redshift[i], NConverted(ks), FALSE) \otimes DDLDz(c, e.zdist[i])
                          ELSE Jacobian(c, e.samples.redshift[i], NConverted(ks), dist), Tight, Zero) ]
\* component models of the driver: "lin" a*mass_1 + 1, "quad" 1 + b*mass_ratio^2, "red" the power-law redshift density
Comp(m, e, i, c, vol) ==
  LET x == [k \in DOMAIN e.samples |-> e.samples[k][i]] IN
  CASE m = "lin" -> (e.p.a \otimes x.mass_1) \oplus One
    [] m = "quad" -> One \oplus (e.p.b \otimes Sq(x.mass_ratio))
    [] m = "red" -> RedshiftDensity("PowerLawRedshift", c, x.redshift, "2.3", e.p, vol)
Prob(e) ==
  LET c == Cosmology(e.cosmo, e.p)  n == N(e)
      vol == IF "red" \in {e.models[k] : k \in DOMAIN e.models} THEN Volume("PowerLawRedshift", c, "2.3", e.p) ELSE One
      RECURSIVE Prod(_, _)
      Prod(i, k) == IF k > Len(e.models) THEN One ELSE Comp(e.models[k], e, i, c, vol) \otimes Prod(i, k + 1)
      sh == Shape(e) /\ Fin(e)
  IN [ sampled |-> sh,
       evaluates |-> IsArr(e.out) /\ Len(e.out.v) = n,
       density_in_detector_frame |-> (sh /\ IsArr(e.out) /\ Len(e.out.v) = n) => \A i \in 1..n :
          Near(e.out.v[i], Prod(i, 1) \oslash Jacobian(c, e.samples.redshift[i], NConverted(DOMAIN e.data), "luminosity_distance" \in DOMAIN e.data), "5e-6", Zero) ]
Clauses(e) == IF e.op = "convert" THEN Convert(e) ELSE Prob(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
