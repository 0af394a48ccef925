------------------------------- MODULE ThinMC -------------------------------
(* Thinning out by repeated bisection at the worst row always satisfies the
   rule, for all small tables and both columns; straight tables keep two rows. *)
EXTENDS PSyGrid, TLC
CONSTANTS N, V
VARIABLES tab, todo, keep, ds
Init == /\ \E n \in 1..N : \E a \in [1..n -> V], b \in [1..n -> {0, 1}], g \in [1..n -> 1..2] :
             LET t[i \in 1..n] == IF i = 1 THEN 0 ELSE t[i - 1] + g[i]
             IN tab = [i \in 1..n |-> [t |-> t[i], a |-> a[i], b |-> b[i]]]
        /\ ds \in 1..3
        /\ todo = {<<1, Len(tab)>>} /\ keep = {1, Len(tab)}
Cs == {"a", "b"}
W == 1..Len(tab)
Bad(i, k, j) == ~Near(tab, Cs, W, i, k, j, Tol(ds)[1], Tol(ds)[2])
Next == \E x \in todo :
   LET i == x[1] j == x[2] K == {k \in (i + 1)..(j - 1) : Bad(i, k, j)} IN
   IF K = {} THEN todo' = todo \ {x} /\ UNCHANGED <<tab, keep, ds>>
   ELSE \E k \in (i + 1)..(j - 1) :
          /\ \A y \in (i + 1)..(j - 1) : Finite(tab, Cs, k) => (Finite(tab, Cs, y) /\ Finite(tab, Cs, i) /\ Finite(tab, Cs, j) => Dev(tab, Cs, W, i, y, j) <= Dev(tab, Cs, W, i, k, j))
          /\ keep' = keep \cup {k} /\ todo' = (todo \ {x}) \cup {<<i, k>>, <<k, j>>}
          /\ UNCHANGED <<tab, ds>>
Seq_(S) == LET f[i \in 0..Len(tab)] == IF i = 0 THEN <<>> ELSE IF i \in S THEN Append(f[i - 1], i) ELSE f[i - 1] IN f[Len(tab)]
Sound == todo = {} => ThinOk(tab, Cs, Seq_(keep), Tol(ds)[1], Tol(ds)[2])
TwoEnds == todo = {} /\ Straight(tab, Cs, Tol(ds)[1], Tol(ds)[2]) => keep = {1, Len(tab)}
=============================================================================
