-------------------------------- MODULE DCOMC -------------------------------
(* Closed model (circular orbits): a^4 falls at a rate set by the masses     *)
(* until the pair touches or the time is up.                                 *)
EXTENDS DCO, TLC
CONSTANTS Masses, Starts, Touch, Maxs
VARIABLES m1, m2, A, A0, Ac, mx, t, out
vars == <<m1, m2, A, A0, Ac, mx, t, out>>
Rate(x, y) == x * y * (x + y)
Init == /\ m1 \in Masses /\ m2 \in Masses /\ A0 \in Starts /\ Ac \in Touch /\ mx \in Maxs /\ A = A0 /\ t = 0 /\ out = "none"
Stop == out = "none" /\ out' = (IF A <= Ac THEN "contact" ELSE "maxtime") /\ (A <= Ac \/ t >= mx) /\ UNCHANGED <<m1, m2, A, A0, Ac, mx, t>>
Tick == out = "none" /\ A > Ac /\ t < mx /\ t' = t + 1 /\ A' = A - Rate(m1, m2) /\ UNCHANGED <<m1, m2, A0, Ac, mx, out>>
Next == Stop \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* Peters: time to contact = (a0^4 - ac^4) / rate                            *)
Need(x, y) == IF A0 <= Ac THEN 0 ELSE (A0 - Ac + Rate(x, y) - 1) \div Rate(x, y)
G(x, y) == [touching |-> A0 <= Ac, tc |-> Need(x, y), max |-> mx, c |-> [how |-> "none", hist |-> 1], step |-> 1]
Agrees == out # "none" => /\ (out = "contact") <=> Merges(G(m1, m2))
                          /\ t = EndsAt(G(m1, m2))
                          /\ Outcome(G(m1, m2)).state = (IF out = "contact" THEN "contact" ELSE "detached")
Mirror == EndsAt(G(m1, m2)) = EndsAt(G(m2, m1))
Shrinks == [][A' <= A /\ t' >= t]_vars
(* a heavier companion never takes longer                                    *)
Heavier == \A y \in Masses : y >= m2 => Need(m1, y) <= Need(m1, m2)
Ends == <>(out # "none")
=============================================================================
