--------------------------------- MODULE SFH ---------------------------------
(* How the star formation at a redshift is shared out to metallicity bins.   *)
(*                                                                           *)
(* Positions 0..K stand for increasing metallicities; F[p+1] is the share of *)
(* star formation below position p, in units of 1/U.  A request has edges of *)
(* bins (a strictly increasing sequence of positions), an optional lowest    *)
(* and highest metallicity (-1: none) and the choice to normalise.           *)
(* Material outside the bins but inside a given limit counts to the outmost  *)
(* bin; material beyond a limit counts nowhere.                              *)
EXTENDS Integers, Sequences
CONSTANT U
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

NBins(c) == Len(c.edges) - 1
Lo(c, i) == IF c.zmin < 0 THEN c.edges[i]
            ELSE IF i = 1 /\ c.zmin <= c.edges[1] THEN c.zmin
            ELSE Max(c.edges[i], c.zmin)
Hi(c, i) == IF c.zmax < 0 THEN c.edges[i + 1]
            ELSE IF i = NBins(c) /\ c.zmax >= c.edges[i + 1] THEN c.zmax
            ELSE Min(c.edges[i + 1], c.zmax)
(* limits wholly outside the bins: the nearest bin takes what they enclose   *)
Low(c, i) == IF i = NBins(c) /\ c.zmin > c.edges[i + 1] THEN c.zmin ELSE Lo(c, i)
High(c, i) == IF i = 1 /\ c.zmax >= 0 /\ c.zmax < c.edges[1] THEN c.zmax ELSE Hi(c, i)
At(F, p) == F[p + 1]
Raw(c, F, i) == IF High(c, i) <= Low(c, i) THEN 0 ELSE At(F, High(c, i)) - At(F, Low(c, i))

RECURSIVE Sum(_, _, _)
Sum(c, F, i) == IF i = 0 THEN 0 ELSE Raw(c, F, i) + Sum(c, F, i - 1)
Total(c, F) == Sum(c, F, NBins(c))

(* observed fractions are in 1/U; tolerance 3 units                          *)
Tolerance == 3
BinOk(c, F, obs, i) ==
    IF ~c.norm THEN Abs(obs[i] - Raw(c, F, i)) <= Tolerance
    ELSE Total(c, F) <= 20 \/ Abs((obs[i] * Total(c, F)) \div U - Raw(c, F, i)) <= Tolerance

Clause(s, e) ==
    IF e.ev = "unexpected" THEN "sharing out star formation fails with " \o e.exc
    ELSE IF e.ev = "share" THEN
        IF e.kinds # "ok" THEN "a share of star formation is not a number"
        ELSE IF Len(e.obs) # NBins(s.c) THEN "not one share per bin"
        ELSE IF e.kinds = "ok" /\ (\E i \in 1..NBins(s.c) : ~BinOk(s.c, e.F, e.obs, i)) THEN "wrong share of star formation in a bin"
        ELSE "ok"
    ELSE IF e.ev = "rate" THEN
        IF \E i \in 1..Len(e.obs) : Abs(e.obs[i] - e.want[i]) > 3 THEN "star formation in a bin is not its share of the whole"
        ELSE "ok"
    ELSE IF e.ev = "total" THEN
        IF Abs(e.obs - e.want) > 2 THEN "wrong cosmic star formation: " \o e.what ELSE "ok"
    ELSE "unknown event"
Fresh(e) == [c |-> e.c]
Apply(s, e) == s
=============================================================================
