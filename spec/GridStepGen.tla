----------------------------- MODULE GridStepGen -----------------------------
EXTENDS GridStep, Json, TLC
VARIABLE c
(* positions: 1 below, 2 at the lower edge, 3 inside, 4 at the upper edge, 5 above *)
Pos == 1..5
Wrong == {HMS, "H-rich_Core_C_depleted", "stripped_He_Core_C_depleted", "stripped_He_Core_He_burning", "accreted_He_Core_He_depleted", "NS", "massless_remnant", "H-rich_non_burning"}
Events == {"ZAMS", "None", "oRLO1", "oRLO2", "CC1"}
Good(st) == CASE st = "CO_HMS_RLO" -> {<<a, b, "oRLO1">> : a \in HRich, b \in CO} \cup {<<b, a, "oRLO2">> : a \in HRich, b \in CO}
              [] st = "CO_HeMS_RLO" -> {<<a, b, "oRLO1">> : a \in HeRich, b \in CO} \cup {<<b, a, "oRLO2">> : a \in HeRich, b \in CO}
              [] st = "CO_HeMS" -> {<<a, b, "None">> : a \in HeRich, b \in CO} \cup {<<b, a, "None">> : a \in HeRich, b \in CO}
              [] st = "MS_MS" -> {<<HMS, HMS, "ZAMS">>}
              [] OTHER -> {<<a, b, ev>> : a \in HRich, b \in HRich, ev \in {"oRLO1", "oRLO2"}}
Box(st) == {[step |-> st, w |-> w, a |-> a, b |-> b, p |-> p, ecc |-> ecc, failed |-> f] : w \in Good(st), a \in Pos, b \in 1..7, p \in Pos, ecc \in {0, 10}, f \in BOOLEAN}
Off(st) == {[step |-> st, w |-> <<s1, s2, ev>>, a |-> 3, b |-> 3, p |-> p, ecc |-> 0, failed |-> FALSE] : s1 \in Wrong, s2 \in Wrong, ev \in Events, p \in {3, 5}}
Init == \E st \in Steps : c \in Box(st) \cup Off(st)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
