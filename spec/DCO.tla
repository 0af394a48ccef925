-------------------------------- MODULE DCO ---------------------------------
(* Two compact objects spiral together by gravitational radiation until they *)
(* touch or the time is up; nothing about them changes but the orbit.        *)
(* Times in ppm of the time to whichever comes first.                        *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Kinds == {"NS", "BH", "WD"}

(* tc: time to contact, max: time left; both in ppm of the smaller           *)
Merges(g) == g.touching \/ g.tc <= g.max
EndsAt(g) == IF g.touching THEN 0 ELSE IF Merges(g) THEN g.tc ELSE g.max
Outcome(g) == IF Merges(g) THEN [state |-> "contact", event |-> "CO_contact"] ELSE [state |-> "detached", event |-> "maxtime"]
Rows(g) ==
  LET at == EndsAt(g) IN
  CASE g.c.how = "none" \/ g.touching -> <<at>>
    [] g.c.how = "n" -> [j \in 1..g.c.hist |-> IF j = g.c.hist THEN at ELSE (at \div g.c.hist) * j + (((at % g.c.hist) * j) \div g.c.hist)]
    [] g.c.how = "dt" -> LET n == (at + g.step - 1) \div g.step IN [j \in 1..n |-> IF j = n THEN at ELSE g.step * j]
(* a step that ends within tolerance of the end may be counted or not        *)
Fuzzy(g) == g.c.how = "dt" /\ ~g.touching /\ (LET r == EndsAt(g) % g.step IN r < 60 \/ g.step - r < 60)

EndClause(g, e) ==
  LET w == Outcome(g) IN
  IF e.state # w.state \/ e.event # w.event THEN "wrong-outcome"
  ELSE IF g.touching /\ e.took # 0 THEN "touching-pair-evolves"
  ELSE IF ~g.touching /\ Abs(e.took - EndsAt(g)) > (IF Merges(g) THEN 50 ELSE 1) THEN "ends-at-wrong-time"
  ELSE IF Merges(g) /\ ~g.touching /\ Abs(e.sep) > 50 THEN "contact-not-at-sum-of-radii"
  ELSE IF ~Merges(g) /\ Abs(e.sep) > 3000 THEN "orbit-off-inspiral"
  ELSE IF Merges(g) /\ e.ecc # 0 THEN "eccentric-at-contact"
  ELSE IF ~Merges(g) /\ Abs(e.ecc) > 2000 THEN "eccentricity-off-inspiral"
  ELSE IF Abs(e.kep) > 1000 THEN "period-does-not-match-separation"
  ELSE IF \E j \in 1..Len(e.off) : Abs(e.off[j]) > 100 THEN "history-off-inspiral"
  ELSE IF ~e.kept THEN "compact-object-changed"
  ELSE IF ~e.vsys THEN "systemic-velocity-changed"
  ELSE IF ~e.lens THEN "histories-out-of-step"
  ELSE IF g.touching THEN IF \E j \in 1..Len(e.rows) : e.rows[j] # 0 THEN "wrong-history-rows" ELSE IF e.mirror > 20 THEN "naming-of-stars-matters" ELSE "ok"
  ELSE IF ~Fuzzy(g) /\ ~(/\ Len(e.rows) = Len(Rows(g))
                         /\ \A j \in 1..Len(e.rows) : Abs(e.rows[j] - Rows(g)[j]) <= 60) THEN "wrong-history-rows"
  ELSE IF e.mirror > 20 THEN "naming-of-stars-matters"
  ELSE "ok"

Fresh(e) == [c |-> e.c, tc |-> e.tc, max |-> e.max, touching |-> e.touching, step |-> e.step]
Clause(g, e) == IF e.ev = "end" THEN EndClause(g, e) ELSE "unexpected-error"
Apply(g, e) == g
=============================================================================
