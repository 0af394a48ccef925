------------------------------ MODULE TraceKit ------------------------------
(* Generic trace validation with a TOTAL verdict.                            *)
(*                                                                           *)
(* The specification supplies Fresh(e) (the abstract state after a "begin"   *)
(* event), Clause(s, e) ("ok", or the name of the clause that event e        *)
(* violates in state s) and Apply(s, e) (the successor state).  The same     *)
(* Clause/Apply pair defines the transitions of the exhaustively checked     *)
(* model, so there is one source of truth.  Every line is consumed; after a  *)
(* rejection the rest of that trace is skipped and validation goes on with   *)
(* the next one.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Trace, Fresh(_), Clause(_, _), Apply(_, _)
VARIABLES l, s, bad, ntr, nf


N == Len(Trace)

TraceInit == l = 1 /\ s = [none |-> TRUE] /\ bad = TRUE /\ ntr = 0 /\ nf = 0

TraceBegin ==
    /\ l <= N
    /\ Trace[l].ev = "begin"
    /\ s' = Fresh(Trace[l])
    /\ bad' = FALSE
    /\ ntr' = ntr + 1
    /\ nf' = nf
    /\ l' = l + 1

TraceEvent ==
    /\ l <= N
    /\ Trace[l].ev # "begin"
    /\ l' = l + 1
    /\ ntr' = ntr
    /\ IF bad THEN UNCHANGED <<s, bad, nf>>
       ELSE LET c == Clause(s, Trace[l]) IN
            IF c = "ok" THEN s' = Apply(s, Trace[l]) /\ bad' = FALSE /\ nf' = nf
            ELSE /\ PrintT("FAIL " \o ToJson(<<Trace[l].t, l, c>>))
                 /\ s' = s /\ bad' = TRUE /\ nf' = nf + 1

TraceNext == TraceBegin \/ TraceEvent
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s, bad, ntr, nf>>
(* printed exactly once, in the last state *)
TraceDone == l = N + 1 => PrintT(<<"DONE", l - 1, ntr, nf>>)
=============================================================================
