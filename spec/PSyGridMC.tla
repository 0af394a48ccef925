------------------------------ MODULE PSyGridMC ------------------------------
(* The making of one stored run, step by step, for all small tables: raw ->
   each table made monotonic -> common models -> cut at He depletion -> cut at
   the first overflow -> thinned out; every path ends in what PSyGrid says is
   stored.                                                                    *)
EXTENDS PSyGrid, TLC
CONSTANTS NB, NH, MaxV
VARIABLES c, r, tab, phase, base

Row(m, t, f, v, d) == [m |-> m, t |-> t, f |-> f, v |-> v, d |-> d]
RowsOf(n, F, DD) == UNION {[1..i -> {Row(m, t, f, 0, d) : m \in 1..MaxV, t \in 1..MaxV, f \in F, d \in DD}] : i \in 0..n}

Init ==
  /\ \E rlo \in BOOLEAN, stop \in BOOLEAN, single \in BOOLEAN :
       c = [rlo |-> rlo, stop |-> stop, single |-> single, noprof |-> FALSE]
  /\ \E b \in RowsOf(NB, {0, 2}, {0}), h \in RowsOf(NH, {0}, {0, 1}), two \in BOOLEAN :
       r = [bh |-> b, h1 |-> h, h2 |-> IF two THEN [i \in 1..Len(h) |-> [h[i] EXCEPT !.d = 0]] ELSE <<>>,
            big |-> TRUE, prof |-> TRUE]
  /\ tab = [k \in {"bh", "h1", "h2"} |-> IF k \in Used(c, r) THEN [i \in 1..Len(r[k]) |-> i] ELSE <<>>]
  /\ phase = "raw" /\ base = 0

Cells(k) == [i \in 1..Len(tab[k]) |-> r[k][tab[k][i]]]
Clean(k) ==                             \* drop one row which breaks the order, from the back
  LET q == tab[k]
      B == {i \in 1..(Len(q) - 1) : ~(r[k][q[i]].t < r[k][q[i + 1]].t /\ r[k][q[i]].m < r[k][q[i + 1]].m)}
  IN /\ B # {}
     /\ LET i == CHOOSE x \in B : \A y \in B : y <= x
        IN tab' = [tab EXCEPT ![k] = SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))]
     /\ UNCHANGED <<c, r, phase, base>>
IsClean(k) == \A i \in 1..(Len(tab[k]) - 1) : r[k][tab[k][i]].t < r[k][tab[k][i + 1]].t /\ r[k][tab[k][i]].m < r[k][tab[k][i + 1]].m
Scrub == phase = "raw" /\ \E k \in {"bh", "h1", "h2"} : Clean(k)
Match ==
  /\ phase = "raw" /\ \A k \in {"bh", "h1", "h2"} : IsClean(k)
  /\ LET M(k) == {r[k][tab[k][i]].m : i \in 1..Len(tab[k])}
         In(k, m) == \A x \in Used(c, r) : m \in M(x)
     IN tab' = [k \in {"bh", "h1", "h2"} |-> LET Ok(i) == In(k, r[k][i].m) IN SelectSeq(tab[k], Ok)]
  /\ phase' = "common" /\ UNCHANGED <<c, r, base>>
Cut ==
  /\ phase = "common"
  /\ LET n == StopAt(c, r)[1] IN
     tab' = IF c.single THEN tab ELSE [k \in {"bh", "h1", "h2"} |-> IF tab[k] = <<>> THEN <<>> ELSE SubSeq(tab[k], 1, n)]
  /\ phase' = "cut" /\ UNCHANGED <<c, r, base>>
Start ==
  /\ phase = "cut"
  /\ IF ~c.rlo \/ c.single \/ tab["bh"] = <<>> THEN UNCHANGED tab /\ phase' = "done" /\ UNCHANGED base
     ELSE LET I == {i \in 1..Len(tab["bh"]) : r.bh[tab["bh"][i]].f # 0} IN
          IF I = {} THEN phase' = "dropped" /\ UNCHANGED <<tab, base>>
          ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y IN
               /\ tab' = [k \in {"bh", "h1", "h2"} |-> IF tab[k] = <<>> THEN <<>> ELSE SubSeq(tab[k], i, Len(tab[k]))]
               /\ base' = r.bh[tab["bh"][i]].t
               /\ phase' = "done"
  /\ UNCHANGED <<c, r>>
Next == Scrub \/ Match \/ Cut \/ Start

Agrees == phase = "done" /\ Included(c, r) =>
            /\ \A k \in {"bh", "h1", "h2"} : tab[k] = Whole(c, r, k)
            /\ base = Shift(c, r)
DroppedOut == phase = "dropped" => ~Included(c, r)
Kept == phase = "done" /\ (IF c.single THEN tab["h1"] # <<>> ELSE tab["bh"] # <<>>) => Included(c, r)
Aligned == phase \in {"common", "cut", "done"} =>
            \A a, b \in Used(c, r) : /\ Len(tab[a]) = Len(tab[b])
                                     /\ \A i \in 1..Len(tab[a]) : r[a][tab[a][i]].m = r[b][tab[b][i]].m
Forward == phase # "raw" => \A k \in {"bh", "h1", "h2"} : IsClean(k)
RloFirst == phase = "done" /\ c.rlo /\ ~c.single /\ tab["bh"] # <<>> => r.bh[tab["bh"][1]].f # 0
(* a stopped run goes on at most to its first depleted model, and is not empty *)
Depleted == phase = "cut" /\ StopAt(c, r)[2] = 1 =>
              /\ tab["h1"] # <<>>
              /\ \A i \in 1..(Len(tab["h1"]) - 1) : ~Low(r.h1[tab["h1"][i]])
=============================================================================
