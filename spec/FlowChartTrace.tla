--------------------------- MODULE FlowChartTrace ---------------------------
(* Conformance of POSYDON's flow-chart dictionaries with FlowChart.tla.      *)
(*  "cell"   the steps of all star-state pairs for one binary state, event   *)
(*  "extras" keys outside the universe of declared states                    *)
(*  "undef"  the declared undefined states                                   *)
(*  "custom" a customisation: requested changes and the observed difference  *)
EXTENDS FlowChart, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Fresh(e) == [variant |-> e.variant]

Want(v, r, b, e) == IF v = "ecc" THEN EccStep(r[1], r[2], b, e)
                    ELSE NextStep(r[1], r[2], b, e)

SeqSet(q) == {q[i] : i \in 1..Len(q)}

CellClause(v, e) ==
    IF {<<r[1], r[2]>> : r \in SeqSet(e.rows)} # Stars \X Stars
    THEN "the star states are not the declared ones"
    ELSE IF \E r \in SeqSet(e.rows) : r[3] # Want(v, r, e.b, e.e) THEN
        LET r == CHOOSE r \in SeqSet(e.rows) : r[3] # Want(v, r, e.b, e.e) IN
        "wrong step for (" \o r[1] \o ", " \o r[2] \o ", " \o e.b \o ", " \o e.e
            \o "): " \o r[3] \o " instead of " \o Want(v, r, e.b, e.e)
    ELSE "ok"

(* r = <<s1, s2, b, e, step>> *)
RowStep(v, r) == Want(v, r, r[3], r[4])
CustomClause(v, e) ==
    LET asked == SeqSet(e.asked)
        diff == SeqSet(e.diff) IN
    IF \E d \in diff : d \notin asked THEN "a customisation changed an entry it does not name"
    ELSE IF \E a \in asked : RowStep(v, a) \notin {a[5]} /\ a \notin diff
         THEN "a requested change of an existing entry is not in effect"
    ELSE IF Len(e.later) > 0 THEN "a customisation leaked into a chart built later"
    ELSE "ok"

Clause(st, e) ==
    CASE e.ev = "cell" -> CellClause(st.variant, e)
      [] e.ev = "extras" -> IF Len(e.keys) = 0 THEN "ok" ELSE "chart has entries for undeclared states"
      [] e.ev = "undef" -> IF SeqSet(e.rows) = UndefinedStates THEN "ok" ELSE "the list of known undefined states differs"
      [] e.ev = "custom" -> CustomClause(st.variant, e)
      [] OTHER -> "unexpected exception escaped the public call"
Apply(st, e) == st

INSTANCE TraceKit
=============================================================================
