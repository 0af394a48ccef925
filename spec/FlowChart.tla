----------------------------- MODULE FlowChart ------------------------------
(* POSYDON's flow: which step a binary takes from a total state              *)
(* <<state of star 1, state of star 2, state of the binary, event>>.         *)
(* Written as one ordered case analysis (the code builds a dictionary by     *)
(* successive overwriting loops).                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CO == {"WD", "NS", "BH"}
Normal == {
    "H-rich_Core_H_burning", "H-rich_Core_He_burning", "H-rich_Shell_H_burning",
    "H-rich_Core_He_depleted", "H-rich_Shell_He_burning", "H-rich_Core_C_burning",
    "H-rich_Core_C_depleted", "H-rich_non_burning",
    "accreted_He_Core_H_burning", "accreted_He_Shell_H_burning",
    "accreted_He_non_burning", "accreted_He_Core_He_burning",
    "stripped_He_Core_He_burning", "stripped_He_Core_He_depleted",
    "stripped_He_Core_C_depleted", "stripped_He_non_burning" }
Massless == "massless_remnant"
Stars == CO \cup Normal \cup {Massless}

HeStripped == {"stripped_He_Core_He_burning", "stripped_He_Core_He_depleted",
               "stripped_He_Core_C_depleted", "stripped_He_non_burning"}
HRich == Normal \ (HeStripped \cup {"accreted_He_Core_He_burning"})
HeRich == HeStripped \cup {"accreted_He_Core_He_burning", "accreted_He_non_burning",
                           "H-rich_non_burning"}
CDepleted == {"H-rich_Core_C_depleted", "stripped_He_Core_C_depleted"}
HRichEvolvable == HRich \ CDepleted
HeRichEvolvable == (HeRich \ CDepleted) \cup {"H-rich_non_burning"}
(* stars that can undergo core collapse *)
Collapsing == {"H-rich_Core_C_depleted", "H-rich_Core_He_depleted",
               "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
               "stripped_He_non_burning", "H-rich_non_burning",
               "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning",
               "accreted_He_non_burning"}

BinStates == {"initially_single_star", "detached", "RLO1", "RLO2", "contact",
              "disrupted", "merged", "initial_RLOF"}
Events == {"None", "CC1", "CC2", "ZAMS", "oRLO1", "oRLO2", "oCE1", "oCE2",
           "oDoubleCE1", "oDoubleCE2", "CO_contact", "redirect_from_ZAMS",
           "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS",
           "redirect_from_CO_HeMS_RLO", "MaxTime_exceeded", "maxtime",
           "oMerging1", "oMerging2", "Match1", "Match2", "Match12"}
CEEvents == {"oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"}
TimeUp == {"maxtime", "MaxTime_exceeded", "CO_contact"}

(* total states known to occur and deliberately left without a step *)
UndefinedStates == {<<c, "H-rich_Core_H_burning", b, "CC2">> :
                       c \in CO, b \in {"disrupted", "detached"}}

(* donor d overflows, the other star a accretes *)
RocheLobe(d, a) ==
    IF d \in HeRich /\ a \in HeRich THEN "step_merged"
    ELSE IF a \in CO THEN
        IF d \in HeRichEvolvable THEN "step_CO_HeMS_RLO"
        ELSE IF d \in HRichEvolvable THEN "step_CO_HMS_RLO"
        ELSE "none"
    ELSE "none"

Redirect(n, c, e) ==   \* normal star n with a compact object c
    IF e = "redirect_from_CO_HMS_RLO" /\ n \in HRich THEN "step_detached"
    ELSE IF e \in {"redirect_from_CO_HeMS", "redirect_from_CO_HeMS_RLO"} /\ n \in HeRich
         THEN "step_detached"
    ELSE "none"

Quiescent(s1, s2) ==   \* detached, no event
    IF s1 \in CO /\ s2 \in CO THEN "step_dco"
    ELSE IF s1 \in Normal /\ s2 \in Normal THEN "step_detached"
    ELSE LET n == IF s1 \in Normal THEN s1 ELSE s2
             c == IF s1 \in Normal THEN s2 ELSE s1
         IN IF n \in Normal /\ c \in CO THEN
                IF n \in HeRichEvolvable THEN "step_CO_HeMS"
                ELSE IF n \in HRich THEN "step_detached"
                ELSE "none"
            ELSE "none"

NextStep(s1, s2, b, e) ==
    IF ~(s1 \in Stars /\ s2 \in Stars /\ b \in BinStates /\ e \in Events) THEN "none"
    \* nothing left to evolve
    ELSE IF s1 \in CO \cup {Massless} /\ s2 \in CO \cup {Massless} /\ Massless \in {s1, s2}
         THEN "step_end"
    \* out of time, or compact objects touching
    ELSE IF e \in TimeUp THEN "step_end"
    ELSE IF b = "initial_RLOF" THEN "step_end"
    ELSE IF b = "merged" /\ e \in {"oMerging1", "oMerging2"} THEN "step_merged"
    ELSE IF b = "disrupted" /\ s1 \in CO /\ s2 \in CO THEN "step_end"
    ELSE IF b = "disrupted" /\ e \notin {"CC1", "CC2"} THEN "step_disrupted"
    ELSE IF b = "initially_single_star" /\ e = "ZAMS" THEN "step_initially_single"
    ELSE IF e = "CC1" THEN (IF s1 \in Collapsing THEN "step_SN" ELSE "none")
    ELSE IF e = "CC2" THEN (IF s2 \in Collapsing THEN "step_SN" ELSE "none")
    ELSE IF e \in {"oCE1", "oDoubleCE1"} /\ b = "RLO1" THEN
            (IF s1 \in Normal THEN "step_CE" ELSE "none")
    ELSE IF e \in {"oCE2", "oDoubleCE2"} /\ b = "RLO2" THEN
            (IF s2 \in Normal THEN "step_CE" ELSE "none")
    ELSE IF e \in CEEvents /\ b = "contact" THEN
            (IF s1 \in Normal \/ s2 \in Normal THEN "step_CE" ELSE "none")
    ELSE IF b = "RLO1" /\ e = "oRLO1" THEN RocheLobe(s1, s2)
    ELSE IF b = "RLO2" /\ e = "oRLO2" THEN RocheLobe(s2, s1)
    ELSE IF b = "detached" THEN
        IF e = "None" THEN Quiescent(s1, s2)
        ELSE IF e = "ZAMS" /\ s1 = "H-rich_Core_H_burning" /\ s2 = s1 THEN "step_HMS_HMS"
        ELSE IF e = "redirect_from_ZAMS" /\ s1 = "H-rich_Core_H_burning" /\ s2 = s1
             THEN "step_detached"
        ELSE IF s1 \in Normal /\ s2 \in CO THEN Redirect(s1, s2, e)
        ELSE IF s2 \in Normal /\ s1 \in CO THEN Redirect(s2, s1, e)
        ELSE "none"
    ELSE "none"

(* the variant for initially eccentric binaries *)
EccStep(s1, s2, b, e) ==
    LET RLOStars == HRichEvolvable \cup HeRichEvolvable
        d == NextStep(s1, s2, b, e)
    IN IF s1 \in RLOStars /\ s2 \in RLOStars
          /\ <<b, e>> \in {<<"RLO1", "oRLO1">>, <<"RLO2", "oRLO2">>}
       THEN "step_HMS_HMS_RLO"
       ELSE IF b = "detached" /\ e = "ZAMS" /\ d # "none" THEN "step_detached"
       ELSE d

Mirror(x) ==
    CASE x = "RLO1" -> "RLO2" [] x = "RLO2" -> "RLO1"
      [] x = "CC1" -> "CC2" [] x = "CC2" -> "CC1"
      [] x = "oRLO1" -> "oRLO2" [] x = "oRLO2" -> "oRLO1"
      [] x = "oCE1" -> "oCE2" [] x = "oCE2" -> "oCE1"
      [] x = "oDoubleCE1" -> "oDoubleCE2" [] x = "oDoubleCE2" -> "oDoubleCE1"
      [] x = "oMerging1" -> "oMerging2" [] x = "oMerging2" -> "oMerging1"
      [] x = "Match1" -> "Match2" [] x = "Match2" -> "Match1"
      [] OTHER -> x
=============================================================================
