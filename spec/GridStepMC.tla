----------------------------- MODULE GridStepMC -----------------------------
(* Every binary of a small universe, for every step: exactly one outcome,     *)
(* the same for the binary with its stars renamed.                            *)
EXTENDS GridStep
VARIABLE x
G == [m1lo |-> 100, m1hi |-> 300, m2lo |-> 60, m2hi |-> 200, plo |-> 100, phi |-> 500, qlon |-> 1, qlod |-> 5, qhin |-> 1, qhid |-> 1]
St == {HMS, "H-rich_Core_C_depleted", "stripped_He_Core_He_burning", "stripped_He_Core_C_depleted", "H-rich_non_burning", "NS", "massless_remnant"}
Init == x \in [g : {G}, step : Steps, s1 : St, s2 : St, event : {"ZAMS", "None", "oRLO1", "oRLO2"}, m1 : {40, 100, 150, 301}, m2 : {40, 100, 150, 301}, p : {99, 100, 501}, ecc : {0, 10}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Sw(ev) == CASE ev = "oRLO1" -> "oRLO2" [] ev = "oRLO2" -> "oRLO1" [] ev = "CC1" -> "CC2" [] ev = "CC2" -> "CC1" [] OTHER -> ev
Mirror == [x EXCEPT !.s1 = x.s2, !.s2 = x.s1, !.m1 = x.m2, !.m2 = x.m1, !.event = Sw(x.event)]
O == Outcome(x.g, x)
OM == Outcome(x.g, Mirror)
Names == (x.step = "HMS_HMS_RLO" \/ (x.step = "MS_MS" /\ x.s1 = x.s2)) \/ (OM.kind = O.kind /\ OM.event = Sw(O.event))
(* the two overflow steps and the detached one share no helium binary with the same event; a binary is claimed by at most one step, except for *)
(* stars that count as both rich in hydrogen and in helium                    *)
Claims(st) == LET y == [x EXCEPT !.step = st] IN Role(y) # 0
Exclusive == (Cardinality({st \in Steps : Claims(st)}) <= 1) \/ x.s1 = "H-rich_non_burning" \/ x.s2 = "H-rich_non_burning"
Safe == O.kind = "evolve" => (Role(x) # 0 /\ PeriodIn(x.g, x) /\ Ma(x) >= x.g.m1lo /\ Ma(x) <= x.g.m1hi /\ x.s1 # "massless_remnant")
Total == O.kind \in {"evolve", "pass", "flow", "grid"}
Inv == Names /\ Exclusive /\ Safe /\ Total
=============================================================================
