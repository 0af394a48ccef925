------------------------------- MODULE Merge --------------------------------
(* The merger of two stars, and the evolution of stars that are (or have     *)
(* become) alone.  Masses are integers in 1/1000 Msun, mass fractions in     *)
(* 1/10000; -1 stands for "not a number".                                    *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
NaN == -1
HMS  == {"H-rich_Core_H_burning"}
PMS  == {"H-rich_Core_He_burning", "H-rich_Shell_H_burning", "H-rich_Core_He_depleted", "H-rich_Core_C_depleted",
         "H-rich_non_burning", "accreted_He_Core_H_burning", "accreted_He_Shell_H_burning"}
HEMS == {"stripped_He_Core_He_burning"}
PHE  == {"stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted", "stripped_He_non_burning", "accreted_He_Core_He_burning"}
He == HEMS \cup PHE
(* a star that burns nothing may be a helium star that still shows hydrogen   *)
HeLike == He \cup {"H-rich_non_burning", "accreted_He_non_burning"}
Stars == HMS \cup PMS \cup He
Heavy == {"NS", "BH"}

(* ---- which pairs merge, and into what ---------------------------------- *)
(* the giant swallows; two alike: the overflowing star                       *)
Pair(a, b) == CASE a \in HMS /\ b \in HMS -> "ms"
                [] a \in PMS /\ b \in HMS -> "giant-ms"
                [] a \in HMS /\ b \in PMS -> "ms-giant"
                [] a \in PMS /\ b \in PMS -> "giants"
                [] a \in PMS /\ b \in He -> "giant-he"
                [] a \in He /\ b \in PMS -> "he-giant"
                [] a \in He /\ b \in He -> "hes"
                [] a \in Stars /\ b = "WD" -> "wd"
                [] a \in Stars /\ b \in Heavy -> "swallowed"
                [] OTHER -> "refused"
Swap(p) == p \in {"ms-giant", "he-giant"}
Avg(x, wx, y, wy) == IF x = NaN \/ y = NaN \/ wx + wy = 0 THEN NaN ELSE (x * wx + y * wy) \div (wx + wy)
(* central composition: of the star with the CO core; mixed if both or none  *)
Centre(g, o, i) == IF g.co = 0 /\ o.co = 0 THEN Avg(g.ab[i], g.he, o.ab[i], o.he)
                   ELSE IF g.co > 0 /\ o.co = 0 THEN g.ab[i]
                   ELSE IF g.co = 0 THEN o.ab[i] ELSE Avg(g.ab[i], g.co, o.ab[i], o.co)
CentreWD(g, o, i) == IF g.co = 0 THEN o.ab[i] ELSE Avg(g.ab[i], g.co, o.ab[i], o.co)
Gamma(g, o) == IF g.co > 0 /\ o.co = 0 THEN g.gam ELSE IF g.co = 0 /\ o.co > 0 THEN o.gam ELSE NaN
(* ab: 1..5 central H, He, C, N, O; 6..10 the same at the surface; 11 carbon *)
(* in the carbon core                                                        *)
Cen == (1..5) \cup {11}
Sur == 6..10
Mixed(p, a, b, lost) ==
    LET g == IF Swap(p) THEN b ELSE a  o == IF Swap(p) THEN a ELSE b
        sum == [he |-> g.he + o.he, co |-> g.co + o.co, cc |-> g.cc + o.cc, oc |-> g.oc + o.oc]
    IN CASE p = "ms" ->
          [m |-> ((a.m + b.m) * (1000 - lost)) \div 1000, he |-> a.he, co |-> a.co, cc |-> a.cc, oc |-> a.oc, gam |-> NaN,
           ab |-> [i \in 1..11 |-> IF i = 11 THEN NaN ELSE Avg(a.ab[i], a.m, b.ab[i], b.m)]]
       [] p \in {"giant-ms", "ms-giant"} ->
          [m |-> a.m + b.m, he |-> g.he, co |-> g.co, cc |-> g.cc, oc |-> g.oc, gam |-> g.gam,
           ab |-> [i \in 1..11 |-> IF i \in Sur THEN Avg(g.ab[i], g.m - g.he, o.ab[i], o.m) ELSE g.ab[i]]]
       [] p = "giants" ->
          [m |-> a.m + b.m, he |-> sum.he, co |-> sum.co, cc |-> sum.cc, oc |-> sum.oc, gam |-> Gamma(g, o),
           ab |-> [i \in 1..11 |-> IF i \in Sur THEN Avg(g.ab[i], g.m - g.he, o.ab[i], o.m - o.he) ELSE Centre(g, o, i)]]
       [] p \in {"giant-he", "he-giant"} ->
          [m |-> a.m + b.m, he |-> sum.he, co |-> sum.co, cc |-> sum.cc, oc |-> sum.oc, gam |-> Gamma(g, o),
           ab |-> [i \in 1..11 |-> IF i \in Sur THEN g.ab[i] ELSE Centre(g, o, i)]]
       [] p = "hes" ->
          [m |-> a.m + b.m, he |-> sum.he, co |-> sum.co, cc |-> sum.cc, oc |-> sum.oc, gam |-> Gamma(g, o),
           ab |-> [i \in 1..11 |-> IF i \in Sur THEN Avg(g.ab[i], g.he - g.co, o.ab[i], o.he - o.co) ELSE Centre(g, o, i)]]
       [] p = "wd" ->
          [m |-> a.m + b.m, he |-> a.he + b.m, co |-> a.co + b.m, cc |-> a.cc + b.m, oc |-> a.oc + b.m,
           gam |-> IF a.co = 0 THEN b.gam ELSE NaN,
           ab |-> [i \in 1..11 |-> IF i \in Sur THEN a.ab[i] ELSE CentreWD(a, b, i)]]

(* ---- verdict ------------------------------------------------------------ *)
MergeEvents == {"oMerging1", "oMerging2"}
RLOEvents == {"oRLO1", "oRLO2"}
Base(ev) == IF ev \in {"oMerging1", "oRLO1"} THEN 1 ELSE 2
Valid(s) == \/ s.bstate = "merged" /\ s.event \in MergeEvents
            \/ s.bstate # "merged" /\ s.st[1].state \in HeLike /\ s.st[2].state \in HeLike /\ s.event \in RLOEvents
Same(x, y) == x.m = y.m /\ x.he = y.he /\ x.co = y.co /\ x.cc = y.cc /\ x.oc = y.oc /\ x.ab = y.ab /\ x.gam = y.gam /\ x.state = y.state
Massless(x) == x.state = "massless_remnant" /\ x.m = 0 /\ x.filled = <<>>
Alone(b) == b.per = "nan" /\ b.sep = "nan" /\ b.ecc = "nan"
(* while it evolves alone, the orbit it is given cannot influence it          *)
FarAway(e) == e.seen = "far"
MergeClause(s, e) ==
    LET k == Base(s.event)  j == 3 - k  a == s.st[k]  b == s.st[j]  p == Pair(a.state, b.state) IN
    IF ~ Valid(s)
    THEN IF e.err # "ValueError" THEN "a merger that was not announced happened" ELSE "ok"
    ELSE IF p = "refused" THEN (IF e.err # "ModelError" THEN "an unknown merger was not refused" ELSE "ok")
    ELSE IF e.err # "none" THEN "a merger failed: " \o e.err
    ELSE IF e.b.state # "merged" THEN "the merger does not leave a merged binary"
    ELSE IF ~ Alone(e.b) THEN "the merged star still has an orbit"
    ELSE IF ~ FarAway(e) THEN "the merged star is evolved in an orbit"
    ELSE IF ~ e.b.timesame THEN "the merger took time"
    ELSE IF p = "swallowed"
    THEN IF ~ Massless(e.star[k]) THEN "a star that merged with a neutron star or black hole is not gone"
         ELSE IF ~ Same(b, e.star[j]) \/ e.star[j].changed # <<>> THEN "a merger changed the compact object" ELSE "ok"
    ELSE LET x == Mixed(p, a, b, s.lost)  y == e.star[k] IN
         IF ~ Massless(e.star[j]) THEN "the merged companion is not gone"
         ELSE IF ~ Near(y.m, x.m, 1) THEN "the merged star does not have the mass of both"
         ELSE IF ~ (Near(y.he, x.he, 1) /\ Near(y.co, x.co, 1) /\ Near(y.cc, x.cc, 1) /\ Near(y.oc, x.oc, 1)) THEN "wrong cores of the merged star"
         ELSE IF \E i \in 1..5 : ~ Near(y.ab[i], x.ab[i], 2) THEN "wrong central composition of the merged star"
         ELSE IF ~ Near(y.ab[11], x.ab[11], 2) \/ y.gam # x.gam THEN "wrong core properties of the merged star"
         ELSE IF \E i \in Sur : ~ Near(y.ab[i], x.ab[i], 2) THEN "wrong surface composition of the merged star"
         ELSE IF y.om # s.rot THEN "the merged star does not rotate as chosen"
         ELSE IF y.stale # <<>> THEN "the merged star keeps properties of one of the two"
         ELSE IF p = "ms" /\ y.state # a.state THEN "two main-sequence stars do not make one"
         ELSE IF ~ y.kindok THEN "the merged star is misclassified"
         ELSE "ok"
AloneStates == {"merged", "disrupted", "initially_single_star"}
AloneClause(s, e) ==
    IF (e.step = "initially_single" /\ s.bstate # "initially_single_star")
    THEN IF e.err # "AttributeError" THEN "a star in a binary was evolved as a single star" ELSE "ok"
    ELSE IF s.bstate \notin AloneStates
    THEN IF e.err # "FlowError" THEN "a star in a binary was evolved alone" ELSE "ok"
    ELSE IF e.err # "none" THEN "the evolution of a lone star failed: " \o e.err
    ELSE IF e.b.state # s.bstate \/ ~ e.b.timesame THEN "evolving alone changed the system"
    ELSE IF ~ Alone(e.b) THEN "a lone star has an orbit"
    ELSE IF ~ FarAway(e) THEN "a lone star is evolved in an orbit"
    ELSE IF e.star[1].changed # <<>> \/ e.star[2].changed # <<>> THEN "preparing a lone star changed it"
    ELSE "ok"
Fresh(e) == [none |-> FALSE, st |-> e.st, bstate |-> e.bstate, event |-> e.event, lost |-> e.lost, rot |-> e.rot]
Clause(s, e) ==
    CASE e.ev = "merge" -> MergeClause(s, e)
      [] e.ev = "alone" -> AloneClause(s, e)
      [] e.ev = "mirror" -> IF e.diff = <<>> THEN "ok" ELSE "which star is called the primary changes the outcome"
      [] OTHER -> "the step raised " \o e.ev
Apply(s, e) == s
=============================================================================
