------------------------------ MODULE Sampling -------------------------------
(* What a sample of initial binaries must look like: the generator of        *)
(* independent samples, the distributions behind it, the reader of samples   *)
(* from a file, and the formation times.                                     *)
(*                                                                           *)
(* A trace is one request: "begin" carries the configuration c, the events   *)
(* report what came back.  Statistical events carry counts of a sample in    *)
(* the ten equal-probability bins of the distribution that was asked for, so *)
(* the rule is the same for every distribution: the cumulative count of the  *)
(* first k bins is k/10 of the sample, within a tolerance that a correct     *)
(* sampler misses less than once in 10^6 times.                              *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)

(* tolerance on a cumulative fraction, in 1/1000, for n draws; 0: too few    *)
Tol(n) == IF n >= 15000 THEN 25 ELSE IF n >= 4000 THEN 47 ELSE IF n >= 1000 THEN 90
          ELSE IF n >= 300 THEN 165 ELSE 0

Follows(bins, n) ==
    \/ Tol(n) = 0
    \/ \A k \in 1..9 : Abs((1000 * SumTo(bins, k)) \div n - 100 * k) <= Tol(n) + 1

Share(part, n, permille) == Tol(n) = 0 \/ Abs((1000 * part) \div n - permille) <= Tol(n) + 1

(* ---------------------------------------------------- independent samples *)
(* binary fraction in permille; mass classes 1..5: <=2, 2-5, 5-9, 9-16, >16  *)
Moe == <<400, 590, 760, 840, 940>>
Fraction(c, cls) == IF c.bf = -1 THEN Moe[cls] ELSE c.bf

Table(c, e) ==
    IF e.len # <<c.n, c.n, c.n, c.n>> THEN "a sample has not the size that was asked for"
    ELSE IF e.m1nan > 0 THEN "a star has no mass"
    ELSE IF e.mixed > 0 THEN "companion mass, orbit and eccentricity are not missing together"
    ELSE IF e.out_m1 > 0 THEN "a primary mass lies outside the requested range"
    ELSE IF e.out_m2 > 0 THEN "a companion mass lies outside the requested range"
    ELSE IF e.heavier > 0 THEN "a companion is heavier than its primary"
    ELSE IF c.m2s = 1 /\ e.unequal > 0 THEN "equal masses were asked for"
    ELSE IF e.out_orb > 0 THEN "an orbit lies outside the requested range"
    ELSE IF e.out_e > 0 THEN "an eccentricity is not in [0, 1)"
    ELSE IF c.ecc = 3 /\ e.nonzero_e > 0 THEN "circular orbits were asked for"
    ELSE IF c.bf = 1000 /\ e.singles > 0 THEN "only binaries were asked for"
    ELSE IF c.bf = 0 /\ e.singles < c.n THEN "only single stars were asked for"
    ELSE "ok"

(* ------------------------------------------------------- samples from file *)
(* quantity q has aliases 1..; c.cols is the sequence of columns <<q, alias>>*)
(* the cell of row r is 100 * alias + r; the row wanted at place k           *)
Num(c) == IF c.num = 0 THEN c.rows ELSE c.num
Row(c, k) == IF c.num = 0 THEN k ELSE (((IF c.idx < 0 THEN 0 ELSE c.idx) + k - 1) % c.rows) + 1
Present(c, q) == {c.cols[i][2] : i \in {j \in 1..Len(c.cols) : c.cols[j][1] = q}}
First(S) == CHOOSE a \in S : \A b \in S : a <= b
Wanted(c, q) ==
    [k \in 1..Num(c) |-> IF Present(c, q) = {} THEN -1
                         ELSE 100 * First(Present(c, q)) + Row(c, k)]

Clause(s, e) ==
    IF e.ev = "unexpected" THEN "the request fails with " \o e.exc
    ELSE IF e.ev = "table" THEN Table(s.c, e)
    ELSE IF e.ev = "hist" THEN
        IF Follows(e.bins, e.n) /\ SumTo(e.bins, 10) = e.n THEN "ok"
        ELSE "drawn values do not follow the distribution asked for: " \o e.what
    ELSE IF e.ev = "quad" THEN
        IF \A i \in 1..4 : Share(e.q[i], e.n, 250) THEN "ok" ELSE "two quantities are not independent: " \o e.what
    ELSE IF e.ev = "share" THEN
        IF Share(e.nb, e.n, Fraction(s.c, e.cls)) THEN "ok" ELSE "wrong share of binaries"
    ELSE IF e.ev = "density" THEN
        IF e.neg > 0 THEN "negative probability density"
        ELSE IF e.outside > 0 THEN "probability density outside the allowed range"
        ELSE IF \E k \in 1..10 : Abs(e.cum[k] - 1000 * k) > 20 THEN "density does not describe the distribution: " \o e.what
        ELSE "ok"
    ELSE IF e.ev = "range" THEN
        IF e.len # s.c.n THEN "a sample has not the size that was asked for"
        ELSE IF e.out > 0 THEN "a drawn value lies outside the range" ELSE "ok"
    ELSE IF e.ev = "same" THEN
        IF e.ok THEN "ok" ELSE "the same seed does not give the same sample"
    ELSE IF e.ev = "column" THEN
        IF e.vals = Wanted(s.c, e.q) THEN "ok" ELSE "wrong rows or wrong column of the file for " \o e.what
    ELSE IF e.ev = "drawn" THEN
        IF e.len # Num(s.c) THEN "drawn replacement of a missing column has the wrong size"
        ELSE IF e.out > 0 THEN "drawn replacement of a missing column is out of range" ELSE "ok"
    ELSE IF e.ev = "constant" THEN
        IF e.len = s.c.n /\ e.differ = 0 THEN "ok" ELSE "a burst does not give every binary the same formation time"
    ELSE "unknown event"

Fresh(e) == [c |-> e.c, last |-> "begin"]
Apply(s, e) == [s EXCEPT !.last = e.ev]
=============================================================================
