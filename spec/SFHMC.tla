------------------------------ MODULE SFHMC ----------------------------------
(* For every cumulative distribution on K cells, every choice of bins and    *)
(* limits: shares are never negative, add up to all that lies inside the     *)
(* limits (extended to the limits, not beyond), and splitting a bin splits   *)
(* its share.                                                                *)
EXTENDS SFH, FiniteSets, TLC
CONSTANTS K, W
VARIABLES c, F
RECURSIVE Cum(_, _)
Cum(w, p) == IF p = 0 THEN 0 ELSE w[p] + Cum(w, p - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Init == \E w \in [1..K -> 0..W], e \in { T \in SUBSET (0..K) : Cardinality(T) >= 2 }, a \in -1..K, b \in -1..K :
          /\ (a >= 0 /\ b >= 0 => a < b)
          /\ F = [p \in 1..(K + 1) |-> Cum(w, p - 1)]
          /\ c = [edges |-> Sorted(e), zmin |-> a, zmax |-> b, norm |-> FALSE]
Spec == Init /\ [][UNCHANGED <<c, F>>]_<<c, F>>
First == c.edges[1]
Last == c.edges[Len(c.edges)]
NonNegative == \A i \in 1..NBins(c) : Raw(c, F, i) >= 0
Bottom == IF c.zmin >= 0 THEN c.zmin ELSE First
Top == IF c.zmax >= 0 THEN c.zmax ELSE Last
Complete == Total(c, F) = IF Top <= Bottom THEN 0 ELSE At(F, Top) - At(F, Bottom)
(* joining all bins into one keeps the total *)
Joined == [c EXCEPT !.edges = <<First, Last>>]
Additive == Total(Joined, F) = Total(c, F)
Within == \A i \in 1..NBins(c) : (c.zmax >= 0 => High(c, i) <= c.zmax \/ Raw(c, F, i) = 0)
                              /\ (c.zmin >= 0 => Low(c, i) >= c.zmin \/ Raw(c, F, i) = 0)
=============================================================================
