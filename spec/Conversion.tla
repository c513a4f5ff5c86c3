----------------------------- MODULE Conversion -----------------------------
(***************************************************************************)
(* Conversion of mean/variance to the shape parameters of the beta         *)
(* distribution (C19).  P maps a parameter name to [k |-> "val", v |-> x]  *)
(* or [k |-> "None"]; absent names are not in its domain.                  *)
(***************************************************************************)
EXTENDS Dec, FiniteSets
Alpha(mu, var, amax) == LET m == mu \oslash amax  v == var \oslash Sq(amax)
                        IN  ((Sq(m) \otimes (One \ominus m)) \ominus (m \otimes v)) \oslash v
BetaP(mu, var, amax) == LET m == mu \oslash amax  v == var \oslash Sq(amax)
                        IN  ((m \otimes Sq(One \ominus m)) \ominus ((One \ominus m) \otimes v)) \oslash v
MeanB(a, b, amax) == (a \oslash (a \oplus b)) \otimes amax
VarB(a, b, amax)  == ((a \otimes b) \otimes Sq(amax)) \oslash (Sq(a \oplus b) \otimes ((a \oplus b) \oplus One))

Name(base, sfx) == base \o sfx
Has(P, base, sfx) == Name(base, sfx) \in DOMAIN P
Lacks(P, sfx) == \/ ~Has(P, "alpha_chi", sfx) \/ ~Has(P, "beta_chi", sfx)
                 \/ P[Name("alpha_chi", sfx)].k = "None" \/ P[Name("beta_chi", sfx)].k = "None"
CanConvert(P, sfx) == Has(P, "mu_chi", sfx) /\ Has(P, "sigma_chi", sfx)
\* a component is specified by its shape parameters or by mean and variance
Specified(P, sfx) == ~Lacks(P, sfx) \/ CanConvert(P, sfx)
Converts(P) ==   \* the suffixes whose shape parameters are added
  LET comp == {x \in {"_1", "_2"} : Lacks(P, x) /\ CanConvert(P, x)}
  IN  comp \cup (IF ~Specified(P, "_1") /\ ~Specified(P, "_2") /\ Lacks(P, "") /\ CanConvert(P, "") THEN {""} ELSE {})
Added(P) == UNION {{Name("alpha_chi", x), Name("beta_chi", x)} : x \in Converts(P)}
Val(P, base, sfx) == P[Name(base, sfx)].v
Converted(P) == [n \in DOMAIN P \cup Added(P) |->
  IF n \notin Added(P) THEN P[n]
  ELSE LET x == CHOOSE y \in Converts(P) : n \in {Name("alpha_chi", y), Name("beta_chi", y)}
           F(a, b, c) == IF n = Name("alpha_chi", x) THEN Alpha(a, b, c) ELSE BetaP(a, b, c)
       IN  [k |-> "val", v |-> F(Val(P, "mu_chi", x), Val(P, "sigma_chi", x), Val(P, "amax", x))]]
=============================================================================
