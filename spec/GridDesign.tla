----------------------------- MODULE GridDesign -----------------------------
(* Properties of the integral over grids, and enumeration of the grid       *)
(* configurations (axis order, axis lengths, key order) that are replayed.  *)
EXTENDS Grid, TLC, Json, FiniteSets
CONSTANTS MaxDim, Lens
VARIABLES c, done
Names == {"mass", "q", "z"}
Injective(f) == \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Perms(n, S) == {f \in [1..n -> S] : Injective(f)}
Confs == UNION {{[keys |-> k, lens |-> n, order |-> o] : k \in Perms(d, Names), n \in [1..d -> Lens], o \in Perms(d, 1..d)} : d \in 1..MaxDim}
DInit == c \in Confs /\ done = FALSE
DNext == /\ ~done /\ done' = TRUE /\ c' = c
         /\ PrintT("CASE|" \o ToJson(c))
DSpec == DInit /\ [][DNext]_<<c, done>>
\* non-uniform sample axes of the given lengths
Axis(j, n) == [k \in 1..n |-> Div(k * k + j, 3)]
Axes == [j \in DOMAIN c.lens |-> Axis(j, c.lens[j])]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN One ELSE Head(q) \otimes Prod(Tail(q))
Width(x) == x[Len(x)] \ominus x[1]
Mid(x) == (x[Len(x)] \oplus x[1]) \oslash Two
\* a constant integrates to the volume
Volume == done => Near(Integral(Axes, LAMBDA at, pos : One), Prod([j \in DOMAIN Axes |-> Width(Axes[j])]), "1e-30", "0")
\* exact for functions linear in each coordinate
Multilinear == done => Near(Integral(Axes, LAMBDA at, pos : Prod(at)),
                            Prod([j \in DOMAIN Axes |-> Width(Axes[j]) \otimes Mid(Axes[j])]), "1e-28", "0")
\* the order of the axes does not matter
Fubini == done =>
  LET f(x) == Exp(Neg(x[1] \oslash "3")) \otimes (One \oplus Sum([j \in DOMAIN x |-> x[j] \otimes x[j]]))
  IN  Near(Integral(Axes, LAMBDA at, pos : f(at)), Integral(Rev(Axes), LAMBDA at, pos : f(Rev(at))), "1e-28", "0")
=============================================================================
