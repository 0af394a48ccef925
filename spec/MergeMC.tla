------------------------------- MODULE MergeMC ------------------------------
(* Every pair of stars from a small table: the merger is total (every pair   *)
(* of a star and anything has an answer or is refused), conserves mass,      *)
(* keeps cores inside stars and fractions inside [0,1], and mixes            *)
(* symmetrically: the same two stars give the same product whichever         *)
(* overflows, unless the one that overflows is the one that decides.         *)
EXTENDS Merge
VARIABLES a, b, lost
Ab(h, y) == [i \in 1..11 |-> CASE i = 1 -> h [] i = 2 -> y [] i \in 3..5 -> (10000 - h - y) \div 3 [] i = 6 -> 7000 [] i = 7 -> 2800
                              [] i \in 8..10 -> 60 [] i = 11 -> IF h > 0 THEN NaN ELSE 3000]
S(st, m, he, co, h, y) == [state |-> st, m |-> m, he |-> he, co |-> co, cc |-> co \div 2, oc |-> co \div 2, gam |-> 5, ab |-> Ab(h, y)]
Table == {S(st, m, 0, 0, 5000, 4800) : st \in HMS, m \in {1000, 20000, 100000}}
      \cup {S(st, m, he, co, 0, 4000) : st \in PMS, m \in {8000, 40000}, he \in {2000, 7000}, co \in {0, 1500}}
      \cup {S(st, 4000, 4000, co, 0, 5000) : st \in He, co \in {0, 1500, 2500}}
      \cup {S("WD", m, 0, m, 0, 0) : m \in {600, 1200}} \cup {S(st, 1400, 0, 0, 0, 0) : st \in Heavy}
Init == a \in Table /\ b \in Table /\ lost \in {0, 100, 300}
Next == UNCHANGED <<a, b, lost>>
Spec == Init /\ [][Next]_<<a, b, lost>>
P == Pair(a.state, b.state)
X == Mixed(P, a, b, lost)
Real == P \notin {"refused", "swallowed"}
Total == a.state \in Stars => (P = "refused" <=> (a.state \in HMS /\ b.state \in He) \/ (a.state \in He /\ b.state \in HMS))
MassConserved == Real => IF P = "ms" THEN X.m <= a.m + b.m /\ X.m * 1000 >= (a.m + b.m) * (1000 - lost) - 1000 ELSE X.m = a.m + b.m
CoresInside == Real => X.he <= X.m /\ X.co <= X.he
Fractions == Real => \A i \in 1..11 : X.ab[i] = NaN \/ (X.ab[i] >= 0 /\ X.ab[i] <= 10000)
Sym == Real /\ b.state \in Stars =>
       LET Y == Mixed(Pair(b.state, a.state), b, a, lost) IN
       X.m = Y.m /\ \A i \in 1..10 : X.ab[i] = Y.ab[i]
=============================================================================
