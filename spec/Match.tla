-------------------------------- MODULE Match -------------------------------
(* Placing the stars of a binary on single-star tracks: who leads, which     *)
(* library serves, how attempts at a match follow one another, what is kept. *)
(* Distances are in 1/1000 (attempts) or 1/1000000 (observed).               *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
HRich == {"HMS", "HPM"}
HeRich == {"HeMS", "HePM"}
Stars == HRich \cup HeRich
Compact == {"BH", "NS", "WD"}

(* ---- roles: the leader is the object that is further evolved              *)
Refused(k1, k2) == IF k1 = "gone" /\ k2 = "gone" THEN "POSYDONError" ELSE IF "odd" \in {k1, k2} THEN "ValueError" ELSE ""
Leader(k1, k2) ==
  CASE k1 = "gone" -> 1 [] k2 = "gone" -> 2
    [] k1 \in Compact /\ k2 \in Compact -> 1
    [] k1 \in Compact -> 1 [] k2 \in Compact -> 2
    [] k1 \in HeRich /\ k2 \in HRich -> 1 [] k2 \in HeRich /\ k1 \in HRich -> 2
    [] OTHER -> 1
Alone(k1, k2) == (k1 = "gone" /\ k2 \in Compact) \/ (k2 = "gone" /\ k1 \in Compact)
Placed(k, leads, which) == k \in Stars /\ (which = "both" \/ ~leads)

(* ---- attempts: usual measure twice (two optimisers), the easier measure,  *)
(* then - never on the main sequence - the other library                     *)
Attempts(kind) == IF kind = "HMS" THEN 3 ELSE 4
Library(kind, j) == IF j = 4 THEN kind \notin HRich ELSE kind \in HRich     (* is it the hydrogen library? *)
Huge == 1000000
Dist(t) == IF t.d < 0 THEN Huge ELSE t.d
NoBest == [j |-> 0, d |-> Huge]
Better(best, t) == t.ok /\ Dist(t) < best.d
Step(best, t, j) == IF Better(best, t) THEN [j |-> j, d |-> Dist(t)] ELSE best
Final(best, t, soft) == Better(best, t) /\ Dist(t) <= soft
RECURSIVE Search(_, _, _, _, _)
Search(tries, n, j, best, soft) ==
  IF j > n THEN [best |-> best, err |-> FALSE]
  ELSE IF tries[j].err THEN [best |-> best, err |-> TRUE]
  ELSE IF Final(best, tries[j], soft) THEN [best |-> Step(best, tries[j], j), err |-> FALSE]
  ELSE Search(tries, n, j + 1, Step(best, tries[j], j), soft)
Result(tries, kind, soft, hard) ==
  LET r == Search(tries, Attempts(kind), 1, NoBest, soft) IN
  IF r.err THEN [res |-> "error", j |-> 0]
  ELSE IF r.best.j = 0 \/ r.best.d > hard THEN [res |-> "fail", j |-> 0]
  ELSE [res |-> "chosen", j |-> r.best.j]

(* ---- what is known in advance about one star                              *)
Expect(c, s) ==
  IF c.event # "none" THEN IF s.at = "heavy" THEN "fail" ELSE "exact"
  ELSE IF c.mode = "try" THEN Result(c.tries, s.kind, c.soft, c.hard).res
  ELSE IF c.mode = "root" THEN IF s.at = "node" THEN "exact" ELSE "root"
  ELSE CASE s.at = "node" /\ s.kind \in HRich -> "exact" [] s.at = "node" -> "exactish" [] s.at = "heavy" -> "fail"
         [] s.at = "swollen" /\ s.kind \in HRich -> "easy" [] OTHER -> "close"

PlacedClause(c, s, r) ==
  LET x == Expect(c, s) IN
  IF ~r.matched THEN "star-not-placed"
  ELSE IF s.kind = "HMS" /\ ~r.h THEN "main-sequence-star-on-helium-track"
  ELSE IF x = "exact" /\ (~r.exact \/ r.h # (s.kind \in HRich)) THEN "star-on-track-not-recognised"
  (* at a perfect match an optimiser may give up; then the other library is tried *)
  ELSE IF x = "exactish" /\ ~r.exact /\ (~r.h \/ r.d > c.hard * 1000) THEN "star-on-track-not-recognised"
  ELSE IF x = "root" /\ (r.d > 20000 \/ r.h # (s.kind \in HRich)) THEN "track-does-not-reproduce-star"
  ELSE IF x = "easy" /\ (~r.h \/ (r.easy > c.soft * 1000 /\ r.d > c.soft * 1000)) THEN "swollen-star-badly-placed"
  ELSE IF x = "close" /\ r.d > c.hard * 1000 /\ ~(r.easy <= c.hard * 1000 /\ r.h = (s.kind \in HRich)) THEN "accepted-beyond-tolerance"
  ELSE IF x = "chosen" /\ (LET j == Result(c.tries, s.kind, c.soft, c.hard).j IN r.chosen # j \/ r.h # Library(s.kind, j)) THEN "not-the-best-attempt"
  ELSE IF ~r.props THEN "star-differs-from-its-track"
  ELSE IF ~r.track THEN "track-handed-on-wrong"
  ELSE IF Abs(r.spin) > 5 THEN "rotation-not-carried-over"
  ELSE IF ~r.j THEN "angular-momentum-not-kept"
  ELSE IF ~r.end THEN "final-structure-of-other-track"
  ELSE "ok"
StarClause(c, s, r, leads) ==
  IF Placed(s.kind, leads, c.which) THEN PlacedClause(c, s, r)
  ELSE IF r.matched THEN "placed-though-not-a-star"
  ELSE IF ~r.kept THEN "other-object-changed"
  ELSE IF ~r.track THEN "compact-object-follows-a-track"
  ELSE "ok"

Wanted(c) == [k \in {1, 2} |-> LET s == IF k = 1 THEN c.s1 ELSE c.s2 IN Placed(s.kind, Leader(c.s1.kind, c.s2.kind) = k, c.which)]
Hopes(c) == {Expect(c, c.s1) : x \in IF Wanted(c)[1] THEN {1} ELSE {}} \cup {Expect(c, c.s2) : x \in IF Wanted(c)[2] THEN {1} ELSE {}}
Sure == {"exact", "easy", "chosen"}
Name(c) == CASE Wanted(c)[1] /\ Wanted(c)[2] -> "Match12" [] Wanted(c)[1] -> "Match1" [] OTHER -> "Match2"

MatchedClause(c, e) ==
  LET no == Refused(c.s1.kind, c.s2.kind)
      p == Leader(c.s1.kind, c.s2.kind)
      a == StarClause(c, c.s1, e.s1, p = 1)
      b == StarClause(c, c.s2, e.s2, p = 2)
  IN
  IF ~e.orbit THEN "orbit-changed-by-matching"
  ELSE IF ~e.lens THEN "histories-out-of-step"
  ELSE IF c.which = "both" /\ ~e.mirror THEN "naming-of-stars-matters"
  ELSE IF no # "" THEN IF e.err = no THEN "ok" ELSE "impossible-pair-accepted"
  ELSE IF "error" \in Hopes(c) THEN IF e.err \in {"NumericalError", "MatchingError"} THEN "ok" ELSE "numerical-failure-unreported"
  ELSE IF "fail" \in Hopes(c) THEN IF e.err # "MatchingError" THEN "hopeless-match-accepted" ELSE IF ~e.failed THEN "failed-match-not-reported" ELSE "ok"
  ELSE IF e.err # "" /\ Hopes(c) \subseteq Sure THEN "match-not-found"
  ELSE IF e.err # "" THEN IF e.err # "MatchingError" THEN "wrong-error" ELSE IF ~e.failed THEN "failed-match-not-reported" ELSE "ok"
  ELSE IF e.failed THEN "matched-yet-failed"
  ELSE IF e.pri # p \/ e.sec # 3 - p THEN "wrong-leader"
  ELSE IF e.only # Alone(c.s1.kind, c.s2.kind) THEN "lone-compact-object-missed"
  ELSE IF a # "ok" THEN a ELSE IF b # "ok" THEN b
  ELSE IF ~Wanted(c)[1] /\ ~Wanted(c)[2] THEN "ok"
  ELSE IF c.rec /\ ~(e.rows = 1 /\ e.steps = <<"step_x">> /\ e.event = Name(c)) THEN "matching-recorded-wrong"
  ELSE IF ~c.rec /\ ~(e.rows = 0 /\ e.steps = <<>> /\ e.event = (IF c.event = "none" THEN "None" ELSE c.event)) THEN "matching-recorded-unasked"
  ELSE "ok"

Fresh(e) == [c |-> e.c]
Clause(g, e) == IF e.ev = "matched" THEN MatchedClause(g.c, e) ELSE "unexpected-error"
Apply(g, e) == g
=============================================================================
