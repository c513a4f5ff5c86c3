--------------------------- MODULE RedshiftTrace ---------------------------
(* Conformance of models.redshift (C09).                                    *)
EXTENDS Redshift, TraceBase
VARIABLES s, l
\* accuracy of the 2500 point grid
GridTol(zmax) == LET h == Div(zmax, 2500) IN "2e-6" \oplus Sq(h \otimes "1.5")
Tight == "1e-8"
Eval(e) ==
  LET c == Cosmology(e.cosmo, e.p)  o == e.out  n == Len(e.z)
      ok == IsArr(o) /\ Len(o.v) = n
      vol == Volume(e.fn, c, e.zmax, e.p)
      want == IF ok THEN [i \in 1..n |-> RedshiftDensity(e.fn, c, e.z[i], e.zmax, e.p, vol)] ELSE <<>>
      ref == IF ok /\ \E i \in 1..n : want[i] # Zero THEN CHOOSE i \in 1..n : want[i] # Zero ELSE 0
  IN [ evaluates |-> ok,
       shape |-> IsArr(o) => o.sh = e.sh,
       zero_above |-> ok => \A i \in 1..n : want[i] = Zero => Eq(o.v[i], Zero),
       value |-> ok => \A i \in 1..n : Near(o.v[i], want[i], GridTol(e.zmax), Zero),
       relative |-> (ok /\ ref > 0 /\ IsFin(o.v[ref])) => \A i \in 1..n : Near(o.v[i], (want[i] \oslash want[ref]) \otimes o.v[ref], Tight, Zero),
       normalisation |-> IsArr(e.norm) /\ Len(e.norm.v) = 1 /\ Near(e.norm.v[1], vol, GridTol(e.zmax), Zero),
       psi |-> IsArr(e.psi) /\ NearSeq(e.psi.v, [i \in 1..n |-> Psi(e.fn, e.z[i], e.p)], "1e-10", Zero),
       psi_at_zero |-> IsArr(e.psi0) /\ Near(e.psi0.v[1], One, "1e-12", Zero),
       volume_element |-> IsArr(e.dvc) /\ NearSeq(e.dvc.v, [i \in 1..n |-> DVcDz(c, e.z[i])], Tight, Zero) ]
Four(e) ==
  LET vol == Volume("PowerLawRedshift", Named("Planck15"), e.zmax, [lamb |-> e.lamb]) IN
  [ four_volume |-> IsArr(e.out) /\ Len(e.out.v) = 1 /\ Near(e.out.v[1], (vol \oslash "1e9") \otimes e.time, GridTol(e.zmax), Zero) ]
Clauses(e) == IF e.op = "four" THEN Four(e) ELSE Eval(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
