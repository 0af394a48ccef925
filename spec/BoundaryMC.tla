----------------------------- MODULE BoundaryMC -----------------------------
(* The boundary of initial overflow: systems found are collected one by one,
   keeping the widest of equal masses; the outcome does not depend on the order. *)
EXTENDS GridFile, TLC
CONSTANTS Pool
VARIABLES left, list
Init == left \in SUBSET Pool /\ list = {}
Add(p) == IF \E q \in list : Masses(q) = Masses(p)
          THEN {q \in list : Masses(q) # Masses(p)} \cup {CHOOSE x \in {q \in list : Masses(q) = Masses(p)} \cup {p} : \A y \in {q \in list : Masses(q) = Masses(p)} \cup {p} : Par(y)[3] <= Par(x)[3]}
          ELSE list \cup {p}
Next == \E p \in left : left' = left \ {p} /\ list' = Add(p)
Inv == \A p, q \in list : Masses(p) = Masses(q) => p = q
Grow == [][\A p \in list : \E q \in list' : Masses(p) = Masses(q) /\ Par(q)[3] >= Par(p)[3]]_<<left, list>>
=============================================================================
