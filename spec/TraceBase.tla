----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Conformance of recorded executions.  A trace file holds one scenario    *)
(* per line, [id |-> .., ev |-> <<event, ..>>].  Every event is consumed:  *)
(* its clauses are evaluated, each clause that does not hold is reported   *)
(* by name, and the validation continues, so that one deviation cannot     *)
(* hide another.  The harness counts the states to make sure that all      *)
(* events have been consumed.                                              *)
(***************************************************************************)
EXTENDS Dec, TLC, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
Fail(sc, k, clause) ==
  PrintT("FAIL|" \o ToString(sc) \o "|" \o ToString(k) \o "|" \o clause)
Report(sc, k, clauses) ==
  \A c \in DOMAIN clauses : IF clauses[c] THEN TRUE ELSE Fail(sc, k, c)

(* An observation is [k |-> "arr", sh |-> shape, v |-> values] or          *)
(* [k |-> "exc", t |-> exception type] or [k |-> "other", t |-> type].     *)
IsArr(o) == o.k = "arr"
IsExc(o) == o.k = "exc"
Raised(o, t) == IsExc(o) /\ o.t = t
\* all values of o equal those of the sequence q up to rounding
Agree(o, q, rtol, atol) == IsArr(o) /\ NearSeq(o.v, q, rtol, atol)
=============================================================================
