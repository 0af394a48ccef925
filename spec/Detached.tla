------------------------------ MODULE Detached ------------------------------
(* Detached evolution of a binary: two stars follow their own single-star    *)
(* tracks from time t0 on; the evolution stops at the FIRST of               *)
(*   - one star filling 95% of its Roche lobe at periastron,                 *)
(*   - one star reaching the end of its track,                               *)
(*   - the maximum time,                                                     *)
(* and says which.  In between, the orbit and the spins obey the balance     *)
(* equations of the processes that are switched on.                          *)
(*                                                                           *)
(* Units: time 10^5 yr (reported in 1/1000 of it), radius 1/100 Rsun,        *)
(* separation Rsun, eccentricity 1/20, masses powers of two.                 *)
EXTENDS Integers, Sequences, FiniteSets

Stellar == {"H", "He"}
Compact == {"BH", "NS", "WD"}
Abs(x) == IF x < 0 THEN -x ELSE x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Log2(m) == CASE m = 1 -> 0 [] m = 2 -> 1 [] m = 4 -> 2 [] m = 8 -> 3
(* Eggleton's Roche-lobe radius over separation, in 10^-6, for q = 2^n       *)
Egg(n) == CASE n = -3 -> 220536 [] n = -2 -> 267601 [] n = -1 -> 320788 [] n = 0 -> 378921
            [] n = 1 -> 440004 [] n = 2 -> 501398 [] n = 3 -> 560222
(* 95% of the lobe of star s beside o, at periastron, in 10^-6 Rsun          *)
Limit(s, o, a, e) == ((Egg(Log2(s.m) - Log2(o.m)) * a * (20 - e)) \div 2000) * 95
Bound(c) == ~(c.disrupted \/ c.s1.kind = "gone" \/ c.s2.kind = "gone")
Own(c, i) == IF i = 1 THEN c.s1 ELSE c.s2
Mate(c, i) == IF i = 1 THEN c.s2 ELSE c.s1
Normal(c, i) == Own(c, i).kind \in Stellar

(* --------------------------- the stopping rule --------------------------- *)
Excess(c, i) == Own(c, i).r * 10000 - Limit(Own(c, i), Mate(c, i), c.a, c.e)
Fills(c, i) == Bound(c) /\ Normal(c, i) /\ Excess(c, i) >= 0
Edge(c, i) == Bound(c) /\ Normal(c, i) /\ Abs(Excess(c, i)) < 2000
Starts(c) == Fills(c, 1) \/ Fills(c, 2)
FillTime(c, i) == (-Excess(c, i)) \div (10 * Own(c, i).k)
Candidates(c) ==
       {[what |-> "max", at |-> 1000 * c.max, star |-> 0, tol |-> 2]}
  \cup {[what |-> "cc", at |-> 1000 * Own(c, i).T, star |-> i, tol |-> 2] : i \in {x \in {1, 2} : Normal(c, x)}}
  \cup {[what |-> "rlo", at |-> FillTime(c, i), star |-> i, tol |-> 3 + (20 \div Own(c, i).k)] :
            i \in {x \in {1, 2} : Bound(c) /\ Normal(c, x) /\ Own(c, x).k > 0}}
First(c) == Min({x.at : x \in Candidates(c)})
(* the candidates that may be reported: the earliest, or one as early as     *)
(* makes no difference                                                       *)
Admissible(c) == {x \in Candidates(c) : x.at - x.tol <= First(c) + 2}

Name(x) == CASE x.what = "max" -> "maxtime"
             [] x.what = "cc" /\ x.star = 1 -> "CC1" [] x.what = "cc" /\ x.star = 2 -> "CC2"
             [] x.what = "rlo" /\ x.star = 1 -> "oRLO1" [] x.what = "rlo" /\ x.star = 2 -> "oRLO2"
State(c, x) == CASE x.what = "rlo" /\ x.star = 1 -> "RLO1" [] x.what = "rlo" /\ x.star = 2 -> "RLO2"
                 [] OTHER -> IF Bound(c) THEN "detached" ELSE "disrupted"
(* overflow between two ordinary stars is refused where no step takes it on  *)
Refused(c, x) == x.what = "rlo" /\ ~c.rlo /\ Normal(c, 1) /\ Normal(c, 2)
                 /\ "H" \in {c.s1.kind, c.s2.kind}
EndSep(c, x) == IF x.what # "rlo" THEN 1000 * c.a
                ELSE IF c.am THEN (1000 * c.a * (400 - c.e * c.e)) \div 400 ELSE (1000 * c.a * (20 - c.e)) \div 20
EndEcc(c, x) == IF x.what = "rlo" THEN 0 ELSE 50 * c.e

(* the rows written to the history, given the time of the end                *)
Rows(c, at) ==
  CASE c.how = "none" -> <<at>>
    [] c.how = "n"  -> [j \in 1..c.hist |-> (at * j) \div c.hist]
    [] c.how = "dt" -> LET step == 1000 * c.hist
                           n == (at + step - 3) \div step      \* rows, the end included
                       IN IF n < 1 THEN <<at>> ELSE [j \in 1..n |-> IF j = n THEN at ELSE step * j]
RowsOK(c, at, rows) ==
  /\ Len(rows) >= 1
  /\ LET want == Rows(c, at) IN
     /\ Len(rows) = Len(want)
     /\ \A j \in 1..Len(want) : Abs(rows[j] - want[j]) <= 2

EndClause(c, e) ==
  IF Starts(c) \/ ((Edge(c, 1) \/ Edge(c, 2)) /\ e.state = "initial_RLOF")
  THEN IF Starts(c) /\ ~(Edge(c, 1) \/ Edge(c, 2)) /\ ~(e.state = "initial_RLOF" /\ e.err = "") THEN "initial-overflow-not-reported"
       ELSE IF e.state = "initial_RLOF" /\ ~(e.at = 0 /\ Abs(e.sep - 1000 * c.a) <= 1 /\ Abs(e.ecc - 50 * c.e) <= 1) THEN "initial-overflow-changes-orbit"
       ELSE "ok"
  ELSE
  LET hit == {x \in Admissible(c) : Abs(e.at - x.at) <= x.tol}
  IN IF e.state = "initial_RLOF" THEN "spurious-initial-overflow"
     ELSE IF e.err # ""
     THEN IF \E x \in Admissible(c) : Refused(c, x) THEN "ok" ELSE "spurious-failure"
     ELSE IF hit = {} THEN "stops-at-wrong-time"
     ELSE IF ~\E x \in hit : e.event = Name(x) THEN "wrong-event"
     ELSE LET x == CHOOSE y \in hit : Name(y) = e.event IN
          IF Refused(c, x) THEN "unsupported-overflow-accepted"
          ELSE IF e.state # State(c, x) THEN "wrong-state"
          ELSE IF Bound(c) /\ (Abs(e.sep - EndSep(c, x)) > 2 \/ Abs(e.ecc - EndEcc(c, x)) > 1) THEN "wrong-final-orbit"
          ELSE IF Bound(c) /\ Abs(e.kep) > 10 THEN "period-does-not-match-separation"
          ELSE IF ~Bound(c) /\ ~e.nan THEN "unbound-pair-has-orbit"
          ELSE IF x.what = "rlo" /\ Abs(e.over[x.star] + 500) > 10 THEN "overflow-not-reported-at-the-lobe"
          ELSE IF x.what = "cc" /\ ~(e.final[x.star] /\ e.prof[x.star]) THEN "collapsing-star-lacks-its-final-structure"
          ELSE IF x.what = "cc" /\ c.s1.T # c.s2.T /\ (e.final[3 - x.star] \/ e.prof[3 - x.star]) THEN "other-star-given-final-structure"
          ELSE IF ~(e.kept[1] /\ e.kept[2]) THEN "compact-object-changed"
          ELSE IF ~e.lens THEN "histories-out-of-step"
          ELSE IF ~RowsOK(c, e.at, e.rows) THEN "wrong-history-rows"
          ELSE IF ~e.good THEN "history-row-inconsistent"
          ELSE "ok"

(* ------------------------------ the physics ------------------------------ *)
(* residuals in ppm (eccentricity, 10^-6) against the balance equations      *)
Within(q, tol) == \A j \in 1..Len(q) : Abs(q[j]) <= tol
On(c, p) == \E j \in 1..Len(c.on) : c.on[j] = p
OrbitMoves(c) == On(c, "wind") \/ On(c, "gr") \/ On(c, "tides")
SpinsMove(c) == On(c, "spin") \/ On(c, "mb") \/ On(c, "tides")
OnlyIn(c, S) == \A j \in 1..Len(c.on) : c.on[j] \in S
(* gravitational radiation carries post-Newtonian terms the balance leaves   *)
(* out (of order G M / a c^2)                                                *)
Tol(c) == IF On(c, "gr") THEN 1000 ELSE 60
PhysClause(c, e) ==
  IF e.event # "maxtime" THEN "wrong-event"
  ELSE IF e.rows # 4 THEN "wrong-history-rows"
  ELSE IF Abs(e.kep) > 10 THEN "period-does-not-match-separation"
  ELSE IF e.mass > 20 THEN "star-leaves-its-track"
  ELSE IF e.rec > 20 THEN "recorded-star-differs-from-its-track"
  ELSE IF ~OrbitMoves(c) /\ (Abs(e.moved.a) > 1 \/ Abs(e.moved.e) > 1) THEN "orbit-changes-without-cause"
  ELSE IF ~SpinsMove(c) /\ (Abs(e.moved.w1) > 1 \/ Abs(e.moved.w2) > 1) THEN "spin-changes-without-cause"
  ELSE IF OnlyIn(c, {"wind", "spin", "mb"}) /\ Abs(e.moved.e) > 1 THEN "eccentricity-changes-without-cause"
  ELSE IF OnlyIn(c, {"wind", "spin", "mb"}) /\ On(c, "wind") /\ ~Within(e.res.am, 50) THEN "wind-orbit-not-adiabatic"
  ELSE IF c.on = <<"tides">> /\ ~Within(e.res.j, 300) THEN "tides-create-angular-momentum"
  ELSE IF c.on = <<"tides">> /\ ~e.loss THEN "tides-create-energy"
  ELSE IF OnlyIn(c, {"gr"}) /\ (e.moved.a > 0 \/ e.moved.e > 1) THEN "radiation-widens-orbit"
  ELSE IF c.on = <<"mb">> /\ ~(e.slow1 /\ e.slow2) THEN "braking-spins-star-up"
  ELSE IF e.mirror < 0 \/ e.mirror > 200 THEN "naming-of-stars-matters"
  ELSE IF ~(Within(e.res.a, Tol(c)) /\ Within(e.res.e, Tol(c))) THEN "orbit-off-balance-equations"
  ELSE IF ~(Within(e.res.w1, Tol(c)) /\ Within(e.res.w2, Tol(c))) THEN "spin-off-balance-equations"
  ELSE "ok"

Fresh(e) == [c |-> e.c]
Clause(st, e) ==
  CASE e.ev = "end" -> EndClause(st.c, e)
    [] e.ev = "phys" -> PhysClause(st.c, e)
    [] OTHER -> "unexpected-error"
Apply(st, e) == st
=============================================================================
