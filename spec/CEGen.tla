-------------------------------- MODULE CEGen -------------------------------
(* Enumerates common envelopes: who, under which options.                    *)
EXTENDS CE, Json, TLC
VARIABLE c
Lams == {"default_lambda", "lambda_from_grid_final_values", "lambda_from_profile_gravitational"}
(* every donor and companion under every physical option                     *)
Mates == {"H-rich_Core_H_burning", "H-rich_Core_He_burning", "stripped_He_Core_He_burning", "stripped_He_Core_C_depleted",
          "accreted_He_Core_H_burning", "WD", "NS", "BH"}
Single == [what : {"single"}, event : {"oCE1", "oCE2"}, d : HGiants \cup HeGiants, o : Mates, lam : Lams, frac : Fractions,
           after : Afters, hg : {"optimistic", "pessimistic"}, loss : BOOLEAN]
Double == [what : {"double"}, event : {"oDoubleCE1", "oDoubleCE2"}, d : HGiants \cup HeGiants, o : HGiants \cup HeGiants, lam : Lams,
           frac : Fractions, after : Afters, hg : {"optimistic"}, loss : BOOLEAN]
(* requests that cannot be answered                                          *)
Odd == [what : {"odd"}, event : CEEvents \cup {"oRLO1", "None"}, d : {"H-rich_Core_He_burning", "stripped_He_Core_He_depleted", "NS", "BH",
        "accreted_He_Core_H_burning", "H-rich_Core_H_burning"}, o : {"NS", "H-rich_Core_He_burning"}, lam : {"default_lambda"},
        frac : {"0.2", "0.3"}, after : {"two_phases_stableMT", "other"}, hg : {"optimistic"}, loss : {FALSE}]
Init == c \in Single \cup Double \cup Odd
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
