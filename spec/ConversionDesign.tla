-------------------------- MODULE ConversionDesign --------------------------
(* All presence/absence/None combinations of the parameters of the          *)
(* components; each state is replayed in the code.                          *)
EXTENDS Conversion, TLC, Json
CONSTANTS Shape, Moments, CommonShape, CommonMoments
VARIABLES PP, done
\* shape: <<alpha, beta>> each "v"al, "n"one, "a"bsent; moments: which of mu, sigma, amax are present
Entry(sfx, sh, mo, i) ==
  LET put(base, how, v) == IF how = "a" THEN <<>> ELSE IF how = "n" THEN <<[n |-> base \o sfx, e |-> [k |-> "None"]]>>
                           ELSE <<[n |-> base \o sfx, e |-> [k |-> "val", v |-> v]]>>
      has(x) == IF x \in mo THEN "v" ELSE "a"
      V == <<<<"2.5", "3.25", "0.3", "0.02", "1">>, <<"1.5", "4", "0.45", "0.05", "0.9">>, <<"7", "1.25", "0.2", "0.01", "0.8">>>>[i]
  IN put("alpha_chi", sh[1], V[1]) \o put("beta_chi", sh[2], V[2]) \o put("mu_chi", has("mu"), V[3])
     \o put("sigma_chi", has("sigma"), V[4]) \o put("amax", has("amax"), V[5])
Fn(q) == [n \in {q[i].n : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].n = n].e]
E1 == TLCEval({Fn(Entry("_1", c[1], c[2], 1)) : c \in Shape \X Moments})
E2 == TLCEval({Fn(Entry("_2", c[1], c[2], 2)) : c \in Shape \X Moments})
E0 == TLCEval({Fn(Entry("", c[1], c[2], 3)) @@ [lamb |-> [k |-> "val", v |-> "2"]] : c \in CommonShape \X CommonMoments})
DInit == \E a \in E1, b \in E2, c \in E0 : PP = a @@ b @@ c /\ done = FALSE
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED PP /\ PrintT("CASE|" \o ToJson(PP))
DSpec == DInit /\ [][DNext]_<<PP, done>>
Full == {"mu", "sigma", "amax"}
QShape == {<<"v","v">>, <<"a","a">>, <<"n","n">>, <<"v","a">>, <<"n","v">>, <<"v","n">>, <<"a","v">>}
QMoments == {Full, {}, {"mu", "amax"}, {"sigma"}}
QCShape == {<<"v","v">>, <<"a","a">>, <<"a","n">>, <<"v","n">>, <<"n","v">>}
QCMoments == {Full, {"amax"}, {"mu"}}
TShape == {"v", "a", "n"} \X {"v", "a", "n"}
\* adding never removes, and nothing else changes
Conserves == done => LET C == Converted(PP)  A == Added(PP) IN \A n \in DOMAIN PP \ A : C[n] = PP[n]
\* conversion is idempotent
Idempotent == done => Converts(Converted(PP)) \subseteq {x \in {""} : FALSE} \/ Added(Converted(PP)) \cap Added(PP) = {}
\* the common parameters are only completed when no component is specified
CommonLast == (done /\ "" \in Converts(PP)) => Converts(PP) = {""}
\* moments of the converted parameters are the given ones, and back
RoundTrip == done => \A x \in Converts(PP) :
  LET C == Converted(PP)  a == Val(C, "alpha_chi", x)  b == Val(C, "beta_chi", x)  m == Val(PP, "amax", x)
  IN  /\ Near(MeanB(a, b, m), Val(PP, "mu_chi", x), "1e-28", "0")
      /\ Near(VarB(a, b, m), Val(PP, "sigma_chi", x), "1e-28", "0")
      /\ Near(Alpha(MeanB(a, b, m), VarB(a, b, m), m), a, "1e-28", "0")
=============================================================================
