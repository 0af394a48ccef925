------------------------------- MODULE PSyGrid -------------------------------
(* What a grid file holds of a computed run (posydon/grids: io, scrubbing,
   downsampling, psygrid, termination_flags).

   A run is a set of tables, each a sequence of rows
     [m |-> model number, t |-> age, f |-> overflow code, v |-> value, d |-> stage]
   f (binary table): 0 detached, 1 transfer without overflow, 2 star 1 overflows,
      3 star 2 overflows, 4 exactly on both thresholds
   d (star tables):  0 core H burning, 1 He depleted (C low), 2 C depleted,
      3 He depleted but C still high
   v: a number, or NaNv where the file holds no number.                       *)
EXTENDS Integers, Sequences, FiniteSets

NaNv == 99
Tabs(r) == {k \in {"bh", "h1", "h2"} : Len(r[k]) > 0}
Used(c, r) == IF c.single THEN Tabs(r) \cap {"h1"} ELSE Tabs(r)

(* ---- one table: time goes forward ------------------------------------- *)
RECURSIVE Back(_, _, _)
Back(rows, i, k) ==
  IF i = 0 THEN <<>>
  ELSE IF rows[i].t < rows[k].t /\ rows[i].m < rows[k].m
       THEN Append(Back(rows, i - 1, i), i)
       ELSE Back(rows, i - 1, k)
Scrubbed(rows) == IF rows = <<>> THEN <<>>
                  ELSE Append(Back(rows, Len(rows) - 1, Len(rows)), Len(rows))

Models(rows) == LET s == Scrubbed(rows) IN {rows[s[i]].m : i \in 1..Len(s)}
Common(c, r) == {m \in UNION {Models(r[k]) : k \in Used(c, r)} :
                   \A k \in Used(c, r) : m \in Models(r[k])}
(* the rows (positions in the file) which are models of all tables *)
Rows(c, r, k) ==
  IF k \notin Used(c, r) THEN <<>>
  ELSE LET cm == Common(c, r)
           Ok(i) == r[k][i].m \in cm
       IN SelectSeq(Scrubbed(r[k]), Ok)

(* ---- cut at the end of He burning of a massive primary ------------------ *)
Low(row) == row.d \in {1, 2}
FirstLow(r, k, s) ==                         \* 0: the run does not end depleted
  IF s = <<>> \/ ~Low(r[k][s[Len(s)]]) THEN 0
  ELSE CHOOSE i \in 1..Len(s) : Low(r[k][s[i]]) /\ \A j \in 1..(i - 1) : ~Low(r[k][s[j]])
(* depleted in row a of n: the row is kept, but for a last row (a unit test
   of the repository asks for that), and some row is left in any case       *)
CutAt(a, n) == IF a < n \/ a = 1 THEN a ELSE n - 1
StopAt(c, r) ==                              \* <<number of rows kept, who stopped>>
  LET s1 == Rows(c, r, "h1")
      s2 == Rows(c, r, "h2")
      a1 == FirstLow(r, "h1", s1)
      a2 == FirstLow(r, "h2", s2)
      n  == Len(Rows(c, r, "bh"))
  IN IF ~c.stop \/ ~r.big \/ c.single \/ Tabs(r) # {"bh", "h1", "h2"} \/ n = 0 THEN <<n, 0>>
     ELSE IF a1 = 0 /\ a2 = 0 THEN <<n, 0>>
     ELSE IF a2 = 0 THEN <<CutAt(a1, n), 1>>
     ELSE IF a1 = 0 THEN <<CutAt(a2, n), 2>>
     ELSE IF r.h1[s1[a1]].t > r.h2[s2[a2]].t THEN <<CutAt(a2, n), 2>> ELSE <<CutAt(a1, n), 1>>

(* ---- start at the first overflow ---------------------------------------- *)
FirstRLO(c, r, n) ==                         \* 0: none
  LET s == Rows(c, r, "bh")
      I == {i \in 1..n : r.bh[s[i]].f # 0}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Span(c, r) ==                                \* first and last row kept (of the common rows)
  LET n == StopAt(c, r)[1]
  IN IF c.single THEN <<1, Len(Rows(c, r, "h1"))>>
     ELSE IF c.rlo THEN <<FirstRLO(c, r, n), n>> ELSE <<1, n>>

(* is the run part of the grid? *)
Included(c, r) ==
  IF c.single
  THEN "h1" \in Tabs(r) /\ Rows(c, r, "h1") # <<>> /\ (r.prof \/ c.noprof)
  ELSE /\ "bh" \in Tabs(r)
       /\ Rows(c, r, "bh") # <<>>
       /\ c.rlo => FirstRLO(c, r, StopAt(c, r)[1]) # 0

Whole(c, r, k) == IF Rows(c, r, k) = <<>> THEN <<>>
                  ELSE SubSeq(Rows(c, r, k), Span(c, r)[1], Span(c, r)[2])
Shift(c, r) == IF c.rlo /\ ~c.single
               THEN r.bh[Rows(c, r, "bh")[Span(c, r)[1]]].t ELSE 0

(* ---- thinning out -------------------------------------------------------- *)
(* rows i < k < j of a table, time t, values in the columns cols: how far is k
   from the straight line between i and j?  Squares, free of fractions.        *)
Rng(tab, c, W) == LET V == {tab[x][c] : x \in W} \ {NaNv}
                  IN IF V = {} THEN 0
                     ELSE (CHOOSE a \in V : \A b \in V : a >= b) - (CHOOSE a \in V : \A b \in V : a <= b)
Sq(x) == x * x
RECURSIVE Dev(_, _, _, _, _, _)
(* sum over columns of (deviation * dt / range)^2 * 144^2 (ranges divide 12) *)
Dev(tab, cols, W, i, k, j) ==
  IF cols = {} THEN 0
  ELSE LET c == CHOOSE x \in cols : TRUE
           g == Rng(tab, c, W)
           dev == (tab[k][c] - tab[i][c]) * (tab[j].t - tab[i].t) - (tab[k].t - tab[i].t) * (tab[j][c] - tab[i][c])
       IN (IF g = 0 THEN 0 ELSE Sq(dev * (12 \div g))) + Dev(tab, cols \ {c}, W, i, k, j)
Finite(tab, cols, k) == \A c \in cols : tab[k][c] # NaNv
(* tolerance = p/q *)
Near(tab, cols, W, i, k, j, p, q) ==
  /\ Finite(tab, cols, i) /\ Finite(tab, cols, k) /\ Finite(tab, cols, j)
  /\ Dev(tab, cols, W, i, k, j) * q * q <= Sq(12 * p * (tab[j].t - tab[i].t))
Clearly(tab, cols, W, i, k, j, p, q) ==
  /\ Finite(tab, cols, i) /\ Finite(tab, cols, k) /\ Finite(tab, cols, j)
  /\ \/ Dev(tab, cols, W, i, k, j) = 0 /\ p > 0
     \/ Dev(tab, cols, W, i, k, j) * q * q < Sq(12 * p * (tab[j].t - tab[i].t))

(* kept: increasing positions; n rows altogether; every removed row lies, up to
   the tolerance, on the line between the kept rows around it                   *)
ThinOk(tab, cols, kept, p, q) ==
  LET n == Len(tab) W == 1..Len(tab) IN
  /\ Len(kept) >= 1
  /\ kept[1] = 1 /\ kept[Len(kept)] = n
  /\ \A a \in 1..(Len(kept) - 1) :
       /\ kept[a] < kept[a + 1]
       /\ \A k \in (kept[a] + 1)..(kept[a + 1] - 1) :
            Near(tab, cols, W, kept[a], k, kept[a + 1], p, q)
(* a table which is a straight line is stored as its two ends *)
Straight(tab, cols, p, q) ==
  Len(tab) > 2 /\ \A k \in 2..(Len(tab) - 1) : Clearly(tab, cols, 1..Len(tab), 1, k, Len(tab), p, q)
Tol(ds) == CASE ds = 1 -> <<0, 1>> [] ds = 2 -> <<1, 10>> [] ds = 3 -> <<1, 2>> [] OTHER -> <<0, 1>>

(* the table of values by which a run is thinned out *)
Merged(c, r) ==
  LET s == [k \in {"bh", "h1", "h2"} |-> Whole(c, r, k)]
      key == IF c.single THEN "h1" ELSE "bh"
      cell(k, i) == IF s[k] = <<>> THEN 0 ELSE r[k][s[k][i]].v
  IN [i \in 1..Len(s[key]) |->
        [t |-> r[key][s[key][i]].t, a |-> cell("bh", i), b |-> cell("h1", i), c |-> cell("h2", i)]]
Cols == {"a", "b", "c"}

(* ---- initial and final values ------------------------------------------ *)
(* 0: from the header of the file, otherwise the row of the file *)
InitMass(c, r) == IF c.single \/ ~c.rlo THEN 0 ELSE Whole(c, r, "bh")[1]
AbundFrom(c, r) == IF c.single THEN "h1"
                   ELSE IF Whole(c, r, "h1") # <<>> THEN "h1"
                   ELSE IF Whole(c, r, "h2") # <<>> THEN "h2" ELSE "dir"
(* He depletion: d is 1 or 3 *)
HeFirst(rows, s) == LET I == {i \in 1..Len(s) : rows[s[i]].d \in {1, 3}}
                    IN IF I = {} THEN 0 ELSE s[CHOOSE i \in I : \A j \in I : i <= j]
HeRow(c, r, k) ==                            \* the accepted answers (0: no value)
  IF Len(r[k]) = 0 THEN {0}
  ELSE {HeFirst(r[k], [i \in 1..Len(r[k]) |-> i]), HeFirst(r[k], Rows(c, r, k)), HeFirst(r[k], Whole(c, r, k))}
Stage(d) == CASE d = 0 -> "H" [] d \in {1, 3} -> "He" [] OTHER -> "C"

(* ---- flags ---------------------------------------------------------------- *)
(* r.out: how the run says it ended: "max_age"-like codes by pool *)
Flag1(c, r) == IF StopAt(c, r)[2] = 0 THEN r.out
               ELSE IF StopAt(c, r)[2] = 1 THEN "stopped1" ELSE "stopped2"
Pool(f) == CASE f \in {"cdep1", "stopped1", "stopped2"} -> "stable"
             [] f = "maxmdot" -> "unstable"
             [] f = "mintime" -> "error"
             [] f = "overflow" -> "initial"
             [] OTHER -> "?"
Donors(c, r) == LET s == Whole(c, r, "bh") IN
  (IF \E i \in 1..Len(s) : r.bh[s[i]].f \in {1, 2} THEN {1} ELSE {})
  \cup (IF \E i \in 1..Len(s) : r.bh[s[i]].f = 3 THEN {2} ELSE {})
AtStart(c, r) == ~c.rlo /\ r.bh[Whole(c, r, "bh")[1]].f \in {1, 2, 3}
Class(c, r) ==
  LET p == Pool(Flag1(c, r)) IN
  CASE p = "error" -> "not_converged"
    [] p = "initial" \/ AtStart(c, r) -> "initial_MT"
    [] Donors(c, r) = {} -> "no_MT"
    [] p = "stable" -> IF Donors(c, r) = {1, 2} THEN "stable_reverse_MT" ELSE "stable_MT"
    [] p = "unstable" -> "unstable_MT"
    [] OTHER -> "unknown"
(* a compact companion cannot be a donor: not claimed there *)
ClassClaimed(c, r) == \A s \in Donors(c, r) : Len(r[IF s = 1 THEN "h1" ELSE "h2"]) > 0
=============================================================================
