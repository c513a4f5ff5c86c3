------------------------------ MODULE Backend ------------------------------
(***************************************************************************)
(* Selection of the numerical backend (property C01).                      *)
(*                                                                         *)
(* The package and the installed plugins register modules whose array      *)
(* namespace ("xp"), special functions ("scs") or other functions track    *)
(* the selected backend.  A site is one registered attribute; the sites of *)
(* the package itself are merged into "pkg".  The environment can make a   *)
(* selection fail: a plugin module that cannot be imported until it is     *)
(* repaired (once imported it stays so), and a library function that can   *)
(* come and go.  A selection either sets every site or changes nothing.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  plug,     \* the installed plugins
  broken,   \* the plugins whose import fails now
  fn,       \* whether the function of the plugin library exists now
  active,   \* the selected backend, "none" before the first selection
  att,      \* site -> backend whose object it holds, "none" if unset
  res       \* "ok" or "raised": outcome of the last selection
vars == <<plug, broken, fn, active, att, res>>

Supported == {"numpy", "cupy", "jax"}
Installed == {"numpy", "jax"}
Plugin == {"arrays", "funcs", "lib", "late", "logm"}
Faulty == {"arrays", "funcs", "late"}      \* those with import faults
SitesOf(p) == CASE p = "arrays" -> {"arrays.xp", "arrays.scs"}
                [] p = "funcs"  -> {"funcs.toeplitz", "funcs.fft"}
                [] p = "lib"    -> {"lib.xp", "lib.tool", "lib.gammaln"}
                [] p = "late"   -> {"late.scs"}
                [] OTHER        -> {"logm.logm", "logm.xp"}
Sites(ps) == {"pkg"} \cup UNION {SitesOf(p) : p \in ps}
\* library function without a backend specific version
Neutral(s) == s = "lib.tool"

Loadable(b) ==
  /\ broken \cap plug = {}
  /\ ("lib" \in plug => fn)
  /\ ("logm" \in plug => b # "jax")      \* scipy.linalg.logm has no jax version
CanSelect(b) == b \in Supported /\ (b = active \/ (b \in Installed /\ Loadable(b)))

Init == /\ plug \in SUBSET Plugin
        /\ broken \in SUBSET (plug \cap Faulty)
        /\ fn \in BOOLEAN /\ ("lib" \notin plug => fn)
        /\ active = "none"
        /\ att = [s \in Sites(plug) |-> IF s = "pkg" THEN "numpy" ELSE "none"]
        /\ res = "ok"
Select(b) ==
  /\ IF CanSelect(b)
     THEN /\ res' = "ok"
          /\ active' = b
          /\ att' = IF b = active THEN att
                    ELSE [s \in DOMAIN att |-> IF Neutral(s) THEN "neutral" ELSE b]
     ELSE res' = "raised" /\ UNCHANGED <<active, att>>
  /\ UNCHANGED <<plug, broken, fn>>
Repair(p) == p \in broken /\ broken' = broken \ {p} /\ UNCHANGED <<plug, fn, active, att, res>>
Toggle == "lib" \in plug /\ fn' = ~fn /\ UNCHANGED <<plug, broken, active, att, res>>

Backends == Supported \cup {"torch"}
Next == \/ \E b \in Backends : Select(b)
        \/ \E p \in Faulty : Repair(p)
        \/ Toggle
Spec == Init /\ [][Next]_vars

(* -- properties --------------------------------------------------------- *)
TypeOK == /\ active \in Installed \cup {"none"}
          /\ DOMAIN att = Sites(plug)
Coherent == active # "none" =>
  \A s \in DOMAIN att : att[s] = IF Neutral(s) THEN "neutral" ELSE active
OnlyOnSuccess == [][(active' # active \/ att' # att) => res' = "ok"]_vars
Retryable == \A b \in Installed :   \* nothing but the environment can refuse a backend
  (broken \cap plug = {} /\ fn /\ ~("logm" \in plug /\ b = "jax")) => CanSelect(b)
=============================================================================
