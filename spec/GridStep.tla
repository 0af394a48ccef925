------------------------------ MODULE GridStep ------------------------------
(* Which grid step may evolve which binary: the five grids of detailed models. *)
(* Masses and periods in 1/100; a grid g covers m1lo..m1hi, m2lo..m2hi, plo..phi. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
HMS == "H-rich_Core_H_burning"
CO == {"WD", "NS", "BH"}
HRich == {HMS, "H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted", "H-rich_Core_C_burning",
          "accreted_He_Core_H_burning", "H-rich_Core_C_depleted", "H-rich_non_burning", "accreted_He_non_burning"}
HeRich == {"accreted_He_Core_He_burning", "stripped_He_Core_He_burning", "stripped_He_Shell_He_burning", "stripped_He_Core_He_depleted",
           "stripped_He_Core_C_depleted", "stripped_He_non_burning", "H-rich_non_burning", "accreted_He_non_burning"}
Steps == {"MS_MS", "CO_HMS_RLO", "CO_HeMS_RLO", "CO_HeMS", "HMS_HMS_RLO"}

(* x: [step, s1, s2, event, m1, m2, p, ecc]                                   *)
(* the star that plays the first role in the grid (0: none)                   *)
Role(x) ==
    CASE x.step = "MS_MS" -> IF x.s1 = HMS /\ x.s2 = HMS /\ x.event = "ZAMS" THEN (IF x.m1 >= x.m2 THEN 1 ELSE 2) ELSE 0
      [] x.step = "CO_HMS_RLO" -> IF x.s2 \in CO /\ x.s1 \in HRich /\ x.event = "oRLO1" THEN 1 ELSE IF x.s1 \in CO /\ x.s2 \in HRich /\ x.event = "oRLO2" THEN 2 ELSE 0
      [] x.step = "CO_HeMS_RLO" -> IF x.s2 \in CO /\ x.s1 \in HeRich /\ x.event = "oRLO1" THEN 1 ELSE IF x.s1 \in CO /\ x.s2 \in HeRich /\ x.event = "oRLO2" THEN 2 ELSE 0
      [] x.step = "CO_HeMS" -> IF x.s2 \in CO /\ x.s1 \in HeRich /\ x.event = "None" THEN 1 ELSE IF x.s1 \in CO /\ x.s2 \in HeRich /\ x.event = "None" THEN 2 ELSE 0
      [] OTHER -> IF x.s1 \in HRich /\ x.s2 \in HRich /\ x.event \in {"oRLO1", "oRLO2"} THEN 1 ELSE 0
(* a star about to collapse is never evolved with a grid                      *)
Collapse(x) ==
    CASE x.step = "MS_MS" -> IF Role(x) # 0 THEN "no" ELSE IF x.s1 = "H-rich_Core_C_depleted" THEN "CC1" ELSE IF x.s2 = "H-rich_Core_C_depleted" THEN "CC2" ELSE "no"
      [] Role(x) = 0 -> "no"
      [] x.step = "HMS_HMS_RLO" -> IF x.event = "oRLO1" /\ x.s1 = "H-rich_Core_C_depleted" THEN "CC1" ELSE IF x.event = "oRLO2" /\ x.s2 = "H-rich_Core_C_depleted" THEN "CC2" ELSE "no"
      [] OTHER -> LET s == IF Role(x) = 1 THEN x.s1 ELSE x.s2
                      dead == IF x.step = "CO_HMS_RLO" THEN "H-rich_Core_C_depleted" ELSE "stripped_He_Core_C_depleted"
                  IN IF s = dead THEN (IF Role(x) = 1 THEN "CC1" ELSE "CC2") ELSE "no"
Ma(x) == IF Role(x) = 2 THEN x.m2 ELSE x.m1
Mb(x) == IF Role(x) = 2 THEN x.m1 ELSE x.m2
MassIn(g, x) ==
    CASE x.step = "MS_MS" -> g.m1lo <= Ma(x) /\ Ma(x) <= g.m1hi /\ Mb(x) >= 50 /\ Mb(x) * 20 >= Ma(x)
      [] x.step = "HMS_HMS_RLO" -> g.m1lo <= Ma(x) /\ Ma(x) <= g.m1hi /\ Mb(x) >= g.m2lo /\ Mb(x) * g.qlod >= Ma(x) * g.qlon /\ Mb(x) * g.qhid <= Ma(x) * g.qhin
      [] OTHER -> g.m1lo <= Ma(x) /\ Ma(x) <= g.m1hi /\ g.m2lo <= Mb(x) /\ Mb(x) <= g.m2hi
PeriodIn(g, x) == g.plo <= x.p /\ x.p <= g.phi
Circular(x) == x.step = "MS_MS" \/ x.ecc = 0
Redirect(x) == CASE x.step = "MS_MS" -> "redirect_from_ZAMS" [] OTHER -> "redirect_from_" \o x.step
(* outcome: [kind, event]                                                     *)
Outcome(g, x) ==
    CASE Collapse(x) # "no" -> [kind |-> "pass", event |-> Collapse(x)]
      [] Role(x) = 0 -> [kind |-> "flow", event |-> "FAILED"]
      [] MassIn(g, x) /\ PeriodIn(g, x) /\ Circular(x) -> [kind |-> "evolve", event |-> ""]
      [] ~PeriodIn(g, x) -> [kind |-> "pass", event |-> Redirect(x)]
      [] ~MassIn(g, x) -> [kind |-> "grid", event |-> "FAILED"]
      [] OTHER -> [kind |-> "pass", event |-> Redirect(x)]
Redirected(x) == Outcome(x.g, x).event = Redirect(x) /\ x.step # "MS_MS"

(* --- replay ----------------------------------------------------------------- *)
Fresh(e) == [n |-> 0]
Clause(s, e) ==
    CASE e.ev = "step" ->
        LET x == e.x w == Outcome(x.g, x) IN
        (CASE e.got.kind # w.kind -> (CASE w.kind = "evolve" -> "a binary inside the grid is not evolved"
                                       [] e.got.kind = "evolve" -> "a binary the grid does not cover is evolved"
                                       [] w.kind = "pass" -> "a binary that should be passed on is refused"
                                       [] OTHER -> "a binary that should be refused is not, or for the wrong reason")
           [] w.kind = "pass" /\ e.got.event # w.event -> "a binary is passed on with the wrong event"
           [] w.kind = "pass" /\ e.got.state # (IF Redirected(x) THEN "detached" ELSE e.state0) -> "a binary is passed on in the wrong state"
           [] w.kind \in {"flow", "grid"} /\ e.got.event # "FAILED" -> "a refused binary is not marked as failed"
           [] w.kind # "evolve" /\ (e.got.same # TRUE \/ e.got.asked # <<>>) -> "a binary that is not evolved was changed"
           [] w.kind = "evolve" /\ e.got.asked # <<Ma(x), Mb(x), x.p>> -> "the grid was asked for another binary"
           [] w.kind = "evolve" /\ e.got.tags # <<1, 2>> -> "the two stars are exchanged after the step"
           [] w.kind = "evolve" /\ e.got.final # (IF Role(x) = 2 THEN <<e.end[2], e.end[1]>> ELSE e.end) -> "a star got the result of its companion"
           [] OTHER -> "ok")
      [] OTHER -> "unexpected failure"
Apply(s, e) == [n |-> s.n + 1]
=============================================================================
