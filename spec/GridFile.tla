------------------------------ MODULE GridFile ------------------------------
(* Grid files as containers of runs: making them from folders, completing them
   at the boundary of initial overflow, joining, extending, re-opening
   (posydon/grids/psygrid.py, io.py, termination_flags.py).

   A run: [u |-> identity, p |-> initial parameters, f |-> kind], kinds
     "ok", "norlo" (never overflows), "overflow" (at the start), "nobh" (no
     history written).  Parameters above 100 lie on the boundary.              *)
EXTENDS Integers, Sequences, FiniteSets

MinKnown == 20
Par(p) ==                                    \* <<mass 1, mass 2, period>>
  IF p > 130                                 \* again the first boundary systems, wider
  THEN <<20 + 4 * (p - 131), 10, 5 + ((3 * (p - 131)) % 4)>>
  ELSE IF p > 120 THEN <<20, 10, 1>>         \* again the first boundary system, closer
  ELSE IF p > 100
  THEN LET a == (p - 101) % 5 b == (p - 101) \div 5 IN <<20 + 4 * a, 10 + 3 * b, 2 + ((3 * a + 5 * b) % 4)>>
  ELSE <<19 + 3 * p, 9 + 2 * p, 1 + ((2 * p) % 5)>>
Dist2(p, q) == (Par(p)[1] - Par(q)[1]) * (Par(p)[1] - Par(q)[1]) + (Par(p)[2] - Par(q)[2]) * (Par(p)[2] - Par(q)[2])
Masses(p) == <<Par(p)[1], Par(p)[2]>>
(* of systems with equal masses the widest counts *)
Widest(K) == {p \in K : \A q \in K : Masses(q) = Masses(p) => Par(q)[3] <= Par(p)[3]}
Nearest(p, K) == {q \in K : \A x \in K : Dist2(p, q) <= Dist2(p, x)}
(* possible answers to "does p overflow initially, by the known systems K?" *)
Below(p, K) ==
  LET B == Widest(K) IN
  IF Cardinality({Masses(q) : q \in B}) < MinKnown THEN {FALSE}
  ELSE {Par(p)[3] < Par(q)[3] : q \in Nearest(p, B)}

(* ---- one grid from folders ------------------------------------------------ *)
Kind(c, r) == CASE r.f = "nobh" -> "none"
                [] r.f = "norlo" /\ c.rlo -> IF c.fix THEN "noRLO" ELSE "none"
                [] r.f = "overflow" -> "overflow"
                [] OTHER -> "ok"
(* of two folders with the same parameters the later one is taken *)
Last(runs) == {i \in 1..Len(runs) : \A j \in (i + 1)..Len(runs) : runs[j].p # runs[i].p}
KnownIn(c, runs) == {runs[i].p : i \in {x \in Last(runs) : Kind(c, runs[x]) = "overflow"}}
Rec(r, flag, empty) == [u |-> r.u, p |-> r.p, flag |-> flag, empty |-> empty]
(* the possible records of a folder; {} : not in the grid *)
Outcome(c, runs, r) ==
  LET k == Kind(c, r)
      e == k \in {"none", "noRLO"}
      b == IF c.fix /\ k # "overflow" THEN Below(r.p, KnownIn(c, runs)) ELSE {FALSE}
  IN (IF TRUE \in b THEN {Rec(r, "forced", e)} ELSE {})
     \cup (IF FALSE \in b /\ k # "none" THEN {Rec(r, k, e)} ELSE {})
MayMiss(c, runs, r) ==
  Kind(c, r) = "none" /\ (~c.fix \/ FALSE \in Below(r.p, KnownIn(c, runs)))
MadeOk(c, runs, rows) ==
  /\ \A a, b \in 1..Len(rows) : a # b => rows[a].u # rows[b].u
  /\ \A a \in 1..Len(rows) : \E i \in Last(runs) : rows[a] \in Outcome(c, runs, runs[i])
  /\ \A i \in Last(runs) : (\E a \in 1..Len(rows) : rows[a].u = runs[i].u) \/ MayMiss(c, runs, runs[i])

(* ---- joining --------------------------------------------------------------- *)
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))
JoinLast(all) == {i \in 1..Len(all) : (\A j \in (i + 1)..Len(all) : all[j].p # all[i].p) /\ all[i].flag # "noRLO"}
Joined(c, all, x) ==
  LET K == {all[i].p : i \in {y \in 1..Len(all) : all[y].flag = "overflow"}}
      b == IF c.fix /\ x.flag \notin {"overflow", "forced"} THEN Below(x.p, K) ELSE {FALSE}
  IN (IF TRUE \in b THEN {[x EXCEPT !.flag = "forced"]} ELSE {}) \cup (IF FALSE \in b THEN {x} ELSE {})
JoinOk(c, gs, rows) ==
  LET all == Flat(gs) IN
  /\ Len(rows) = Cardinality(JoinLast(all))
  /\ \A i \in JoinLast(all) : \E a \in 1..Len(rows) : rows[a] \in Joined(c, all, all[i])
  /\ \A a, b \in 1..Len(rows) : a # b => rows[a].u # rows[b].u
=============================================================================
