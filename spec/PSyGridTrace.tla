---------------------------- MODULE PSyGridTrace ----------------------------
EXTENDS PSyGrid, TLC, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Fresh(e) == [c |-> e.c, stored |-> <<>>, seen |-> 0]
Kept(r, k, W, rows) ==        \* stored rows as positions among the common rows W
  [a \in 1..Len(rows) |-> IF \E x \in 1..Len(W) : W[x] = rows[a] THEN CHOOSE x \in 1..Len(W) : W[x] = rows[a] ELSE 0]
Key(c) == IF c.single THEN "h1" ELSE "bh"

Tables(c, r, e) ==
  \A k \in {"bh", "h1", "h2"} :
    IF c.ds = 0 THEN e[k] = Whole(c, r, k)
    ELSE IF Whole(c, r, k) = <<>> THEN e[k] = <<>>
    ELSE LET W == Whole(c, r, k)
             P == Kept(r, k, W, e[k])
         IN /\ \A a \in 1..Len(P) : P[a] # 0
            /\ P = Kept(r, Key(c), Whole(c, r, Key(c)), e[Key(c)])       \* aligned
            /\ \A a \in 1..(Len(P) - 1) : P[a] < P[a + 1]
Thin(c, r, e) ==
  c.ds # 0 =>
    LET tab == Merged(c, r)
        P == Kept(r, Key(c), Whole(c, r, Key(c)), e[Key(c)])
        tol == Tol(c.ds)
    IN /\ ThinOk(tab, Cols, P, tol[1], tol[2])
       /\ Straight(tab, Cols, tol[1], tol[2]) => Len(P) = 2
Ages(c, r, e) ==
  /\ ~c.single => e.age = [a \in 1..Len(e.bh) |-> r.bh[e.bh[a]].t - Shift(c, r)]
  /\ e.age1 # <<-7>> => e.age1 = [a \in 1..Len(e.h1) |-> r.h1[e.h1[a]].t - Shift(c, r)]
  /\ e.age2 # <<-7>> => e.age2 = [a \in 1..Len(e.h2) |-> r.h2[e.h2[a]].t - Shift(c, r)]
Raw(row) == IF row.d = 0 THEN <<2, 1>> ELSE <<2, 3>>          \* He core, CO core
HeCore(c, row) == IF c.hefix THEN (IF Raw(row)[2] > Raw(row)[1] THEN Raw(row)[2] ELSE Raw(row)[1]) ELSE Raw(row)[1]
Cores(c, r, e) ==
  /\ e.he1 = [a \in 1..Len(e.h1) |-> HeCore(c, r.h1[e.h1[a]])]
  /\ e.he2 = [a \in 1..Len(e.h2) |-> HeCore(c, r.h2[e.h2[a]])]
First(q) == IF q = <<>> THEN -998 ELSE q[1]
Last(q) == IF q = <<>> THEN -998 ELSE q[Len(q)]
Initial(c, r, e) ==
  /\ e.iv.row1 = First(Whole(c, r, "h1"))
  /\ e.iv.row2 = First(Whole(c, r, "h2"))
  /\ e.iv.ab = AbundFrom(c, r)
  /\ IF c.single THEN e.iv.m1 = 0
     ELSE /\ e.iv.row = First(Whole(c, r, "bh"))
          /\ e.iv.m1 = InitMass(c, r) /\ e.iv.m2 = InitMass(c, r) /\ e.iv.p = InitMass(c, r)
          /\ e.iv.sep = InitMass(c, r)
          /\ e.iv.age = r.bh[Whole(c, r, "bh")[1]].t - Shift(c, r)
Final(c, r, e) ==
  /\ e.fv.row1 = Last(Whole(c, r, "h1"))
  /\ e.fv.row2 = Last(Whole(c, r, "h2"))
  /\ IF c.single THEN e.fv.m1 = Last(Whole(c, r, "h1"))
     ELSE /\ e.fv.row = Last(Whole(c, r, "bh"))
          /\ e.fv.m1 = Last(Whole(c, r, "bh")) /\ e.fv.m2 = Last(Whole(c, r, "bh"))
          /\ e.fv.p = Last(Whole(c, r, "bh")) /\ e.fv.sep = Last(Whole(c, r, "bh"))
          /\ e.fv.age = r.bh[Last(Whole(c, r, "bh"))].t - Shift(c, r)
  /\ e.fv.dep1 \in HeRow(c, r, "h1")
  /\ c.single \/ e.fv.dep2 \in HeRow(c, r, "h2")
StageOf(r, k, q) == IF q = <<>> THEN "CO" ELSE Stage(r[k][q[Len(q)]].d)
Flags(c, r, e) ==
  IF c.single
  THEN e.fv.tf1 = r.out /\ e.fv.tf3 = StageOf(r, "h1", Whole(c, r, "h1"))
  ELSE /\ e.fv.tf1 = Flag1(c, r)
       /\ e.fv.tf3 = StageOf(r, "h1", Whole(c, r, "h1"))
       /\ e.fv.tf4 = StageOf(r, "h2", Whole(c, r, "h2"))
       /\ ClassClaimed(c, r) => e.fv.cls = Class(c, r)
(* profiles run inwards; thinned out on mass *)
PTab(r) == LET n == Len(r.pm)
               m[j \in 1..n] == IF j = 1 THEN r.pm[1] ELSE m[j - 1] + r.pm[j]
           IN [j \in 1..n |-> [t |-> m[j], a |-> r.pv[j]]]       \* outwards
Profile(c, r, e) ==
  IF ~r.prof \/ (r.h1 = <<>> /\ r.h2 = <<>>) THEN e.prof = <<>>
  ELSE IF c.pds = 0 THEN e.prof = [j \in 1..Len(r.pm) |-> Len(r.pm) + 1 - j]
  ELSE LET tab == PTab(r)
           P == [a \in 1..Len(e.prof) |-> e.prof[Len(e.prof) + 1 - a]]
           tol == Tol(c.pds)
           total == tab[Len(tab)].t - tab[1].t
           far(i, j) == CASE c.pint = 0 -> FALSE
                          [] c.pint = 1 -> tab[j].t - tab[i].t > 2
                          [] OTHER -> 2 * (tab[j].t - tab[i].t) > total
       IN /\ \A a \in 1..Len(P) : P[a] \in 1..Len(tab)
          /\ ThinOk(tab, {"a"}, P, tol[1], tol[2])
          /\ \A a \in 1..(Len(P) - 1) : far(P[a], P[a + 1]) => P[a + 1] = P[a] + 1
          /\ (Straight(tab, {"a"}, tol[1], tol[2]) /\ ~far(1, Len(tab))) => Len(P) = 2

Expected(c) == {j \in 1..Len(c.runs) : Included(c, c.runs[j])}
Range(q) == {q[j] : j \in 1..Len(q)}
NoneUsable(c) == \A j \in 1..Len(c.runs) : Len(c.runs[j].bh) = 0 /\ Len(c.runs[j].h1) = 0 /\ Len(c.runs[j].h2) = 0

Clause(st, e) ==
  LET c == st.c IN
  CASE e.ev = "stored" ->
         IF Range(e.runs) # Expected(c) THEN "runs"
         ELSE IF Len(e.runs) # Cardinality(Range(e.runs)) THEN "twice"
         ELSE IF e.n # (IF c.slim THEN 0 ELSE Len(e.runs)) THEN "length"
         ELSE IF e.nv # Len(e.runs) THEN "values" ELSE "ok"
    [] e.ev = "run" ->
         LET r == c.runs[e.run] IN
         IF e.slot + 1 > Len(st.stored) \/ st.stored[e.slot + 1] # e.run THEN "slot"
         ELSE IF ~c.slim /\ ~Tables(c, r, e) THEN "rows"
         ELSE IF ~c.slim /\ ~Thin(c, r, e) THEN "thinning"
         ELSE IF ~c.slim /\ ~Ages(c, r, e) THEN "ages"
         ELSE IF ~c.slim /\ ~Cores(c, r, e) THEN "cores"
         ELSE IF ~Initial(c, r, e) THEN "initial"
         ELSE IF ~Final(c, r, e) THEN "final"
         ELSE IF ~Flags(c, r, e) THEN "flags"
         ELSE IF ~c.slim /\ ~Profile(c, r, e) THEN "profile"
         ELSE "ok"
    [] e.ev = "end" -> IF st.seen # Len(st.stored) THEN "unread" ELSE "ok"
    [] OTHER -> "unexpected"
Apply(st, e) == CASE e.ev = "stored" -> [st EXCEPT !.stored = e.runs]
                  [] e.ev = "run" -> [st EXCEPT !.seen = @ + 1]
                  [] OTHER -> st
INSTANCE TraceKit
=============================================================================
