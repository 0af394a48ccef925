----------------------------- MODULE FlowChartMC ----------------------------
(* Design-level properties of the flow, checked for every total state of the *)
(* declared universe (20 x 20 x 8 x 22).                                     *)
EXTENDS FlowChart
VARIABLES s1, s2, b, e
vars == <<s1, s2, b, e>>
Init == s1 \in Stars /\ s2 \in Stars /\ b \in BinStates /\ e \in Events
Spec == Init /\ [][FALSE]_vars
Step == NextStep(s1, s2, b, e)
Ecc == EccStep(s1, s2, b, e)
Steps == {"none", "step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO",
          "step_detached", "step_disrupted", "step_merged", "step_initially_single",
          "step_dco", "step_SN", "step_CE", "step_end", "step_HMS_HMS_RLO"}
TypeOK == Step \in Steps \ {"step_HMS_HMS_RLO"} /\ Ecc \in Steps
(* relabelling the two stars does not change the route *)
Symmetric == /\ Step = NextStep(s2, s1, Mirror(b), Mirror(e))
             /\ Ecc = EccStep(s2, s1, Mirror(b), Mirror(e))
(* a binary out of time, or with nothing left to evolve, always ends *)
TimeUpEnds == e \in TimeUp => Step = "step_end"
NothingLeftEnds == (Massless \in {s1, s2} /\ {s1, s2} \cap Normal = {}) => Step = "step_end"
(* every collapse of a star that can collapse reaches the supernova step,
   except in binaries that never started *)
CollapseHandled == (e = "CC1" /\ s1 \in Collapsing /\ b # "initial_RLOF"
                    /\ ~(s1 = Massless)) => Step = "step_SN"
(* a step that assumes a compact companion is only taken with one *)
CompactCompanion == Step \in {"step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO"}
                    => Cardinality({i \in {1, 2} : (IF i = 1 THEN s1 ELSE s2) \in CO}) = 1
DcoOnlyDCO == Step = "step_dco" => s1 \in CO /\ s2 \in CO
SNOnlyCollapse == Step = "step_SN" => (e = "CC1" /\ s1 \in Collapsing) \/ (e = "CC2" /\ s2 \in Collapsing)
UndefinedHasNoStep == <<s1, s2, b, e>> \in UndefinedStates => Step = "none"
DetachedTotal == (b = "detached" /\ e = "None" /\ Massless \notin {s1, s2}
                  /\ ~({s1, s2} \cap CO # {} /\ {s1, s2} \cap {"stripped_He_Core_C_depleted"} # {}))
                 => Step # "none"
CETotal == (b = "RLO1" /\ e \in {"oCE1", "oDoubleCE1"} /\ s1 \in Normal) => Step = "step_CE"
=============================================================================
