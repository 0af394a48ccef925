-------------------------------- MODULE CE ----------------------------------
(* The common-envelope step.  One star (the donor) or both (a double common  *)
(* envelope) lose the envelope, paid for by the orbit, or the two cores      *)
(* merge.  Masses are integers in 1/1000 Msun, radii in 1/1000 Rsun,         *)
(* abundances in 1/10000, deviations from the energy budget in ppm.          *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Set(q) == { q[i] : i \in 1..Len(q) }
Min(a, b) == IF a < b THEN a ELSE b

(* ---- who takes part ---------------------------------------------------- *)
CEEvents == {"oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"}
Donor(ev) == IF ev \in {"oCE1", "oDoubleCE1"} THEN 1 ELSE 2
Other(k) == 3 - k
IsDouble(ev) == ev \in {"oDoubleCE1", "oDoubleCE2"}
MergeEvent(k) == IF k = 1 THEN "oMerging1" ELSE "oMerging2"
CCEvent(k) == IF k = 1 THEN "CC1" ELSE "CC2"

(* stars whose envelope surrounds a helium core, and those around a CO core  *)
HGiants == {"H-rich_Core_H_burning", "H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted",
            "H-rich_Core_C_depleted", "H-rich_non_burning", "accreted_He_non_burning"}
HeGiants == {"accreted_He_Core_He_burning", "stripped_He_Core_He_burning", "stripped_He_Core_He_depleted",
             "stripped_He_Core_C_depleted", "stripped_He_non_burning"}
CO == {"WD", "NS", "BH"}
CoreType(st) == IF st \in HGiants THEN "He_core" ELSE IF st \in HeGiants THEN "CO_core" ELSE "none"
(* stars with no core that could survive                                     *)
Coreless(c) == {"H-rich_Core_H_burning", "stripped_He_Core_He_burning", "accreted_He_Core_He_burning"}
               \cup (IF c.hg = "pessimistic" THEN {"H-rich_Shell_H_burning"} ELSE {})

(* ---- when the step must refuse ---------------------------------------- *)
Fractions == {"0.01", "0.1", "0.3"}
Bad(c, st) == CoreType(st) = "none" \/ (CoreType(st) = "He_core" /\ c.frac \notin Fractions)
              \/ (CoreType(st) = "CO_core" /\ c.hefrac # "0.1")
Afters == {"one_phase_variable_core_definition", "two_phases_stableMT", "two_phases_windloss"}
Refused(c, ev, st) ==
    LET k == Donor(ev) IN
    \/ ev \notin CEEvents
    \/ /\ st[k].state \notin Coreless(c)
       /\ \/ c.presc # "alpha-lambda"
          \/ Bad(c, st[k].state)
          \/ IsDouble(ev) /\ Bad(c, st[Other(k)].state)
          \/ c.after \notin Afters

(* ---- which core, which binding energy --------------------------------- *)
(* the pair <<core mass, core radius>> used while the envelope is ejected    *)
LambdaDef(c) == IF c.lam = "lambda_from_grid_final_values" THEN c.frac ELSE "default"
Core(c, s) == IF CoreType(s.state) = "He_core"
              THEN CASE LambdaDef(c) = "default" -> [m |-> s.he, r |-> s.rhe]
                     [] LambdaDef(c) = "0.01" -> [m |-> s.m1, r |-> s.r1]
                     [] LambdaDef(c) = "0.1"  -> [m |-> s.m10, r |-> s.r10]
                     [] LambdaDef(c) = "0.3"  -> [m |-> s.m30, r |-> s.r30]
              ELSE IF LambdaDef(c) = "default" THEN [m |-> s.co, r |-> s.rco] ELSE [m |-> s.mp, r |-> s.rp]
(* what is left in the end                                                   *)
Final(c, s) == IF c.after = "one_phase_variable_core_definition" THEN Core(c, s)
               ELSE IF CoreType(s.state) = "He_core" THEN [m |-> Min(s.he, Core(c, s).m), r |-> s.rhe]
               ELSE [m |-> Min(s.co, Core(c, s).m), r |-> s.rco]
(* the phase after the ejection: both cores lose mass in a double envelope,  *)
(* so it cannot be a mass transfer                                           *)
Phase(c, ev) == IF c.after = "two_phases_stableMT" /\ IsDouble(ev) THEN "two_phases_windloss" ELSE c.after
(* The energy budget for every admissible reading of the options is worked   *)
(* out outside; Key selects the reading this specification demands.          *)
Key(c, ev, st) == LET k == Donor(ev) IN
    LambdaDef(c) \o "/" \o CoreType(st[k].state) \o "/"
    \o (IF IsDouble(ev) THEN CoreType(st[Other(k)].state) ELSE "whole") \o "/" \o Phase(c, ev)

(* ---- verdicts ---------------------------------------------------------- *)
Tol == 2000           \* ppm
(* burning: the hydrogen envelope is gone, and so is its shell               *)
Suffix(st) == CASE st \in {"H-rich_Shell_H_burning", "H-rich_Core_H_burning", "H-rich_non_burning",
                           "accreted_He_non_burning", "stripped_He_non_burning"} -> "non_burning"
                [] st = "H-rich_Core_He_burning" -> "Core_He_burning"
                (* a CO core has no helium left to burn                       *)
                [] st \in {"stripped_He_Core_He_burning", "accreted_He_Core_He_burning"} -> "non_burning"
                [] st \in {"H-rich_Core_He_depleted", "stripped_He_Core_He_depleted"} -> "Core_He_depleted"
                [] st \in {"H-rich_Core_C_depleted", "stripped_He_Core_C_depleted"} -> "Core_C_depleted"
H1(c, s) == IF CoreType(s.state) = "CO_core" THEN 0
            ELSE IF c.after = "one_phase_variable_core_definition"
                 THEN (CASE c.frac = "0.01" -> 100 [] c.frac = "0.1" -> 1000 [] c.frac = "0.3" -> 3000) ELSE 100
He4(c, s) == IF CoreType(s.state) = "CO_core" THEN 1000 ELSE 10000 - H1(c, s) - s.z
StrippedClause(c, s, p) ==
    LET f == Final(c, s) IN
    IF ~ Near(p.m, f.m, 1) THEN "the stripped star does not have the mass of its core"
    ELSE IF ~ Near(p.r, f.r, 1 + f.r \div 1000) THEN "the stripped star does not have the radius of its core"
    ELSE IF p.h1 # H1(c, s) \/ ~ Near(p.he4, He4(c, s), 2) THEN "the stripped star has the wrong surface composition"
    ELSE IF ~ Near(p.he, f.m, 1) \/ ~ Near(p.rhe, f.r, 1 + f.r \div 1000) THEN "the helium core does not match the stripped star"
    ELSE IF CoreType(s.state) = "CO_core" /\ (~ Near(p.co, f.m, 1) \/ ~ Near(p.rco, f.r, 1 + f.r \div 1000))
         THEN "the CO core does not match the stripped star"
    ELSE IF CoreType(s.state) = "He_core" /\ (p.co # s.co \/ p.rco # s.rco) THEN "the ejection changed the CO core"
    ELSE IF p.state # (IF H1(c, s) > 100 THEN "H-rich_" ELSE "stripped_He_") \o Suffix(s.state)
         THEN "the stripped star is misclassified"
    ELSE IF p.left # <<>> THEN "properties of the lost envelope survive the ejection"
    ELSE IF p.lost # <<>> THEN "properties of the core were lost in the ejection"
    ELSE "ok"

EjectClause(st, c, ev, e) ==
    LET k == Donor(ev)  o == e.cand[Key(c, ev, st)]  b == e.b IN
    IF b.state # "detached" THEN "the ejection does not leave a detached binary"
    ELSE IF b.event # (IF st[k].state = "stripped_He_Core_He_depleted" THEN CCEvent(k) ELSE "None")
         THEN "wrong event after the ejection"
    ELSE IF b.ecc # 0 THEN "the orbit after the ejection is not circular"
    ELSE IF e.dsep[Key(c, ev, st)] > Tol THEN "the orbit after the ejection does not close the energy budget"
    ELSE IF b.dper > 1000 THEN "separation and period disagree"
    ELSE IF b.left # <<>> THEN "orbital properties of the time before survive the ejection"
    ELSE LET a == StrippedClause(c, st[k], e.star[k]) IN
         IF a # "ok" THEN a
         ELSE IF IsDouble(ev) THEN StrippedClause(c, st[Other(k)], e.star[Other(k)])
         ELSE IF e.star[Other(k)].changed # <<>> THEN "the ejection changed the companion" ELSE "ok"

(* masses may only go down, and only when the option asks for it, and never  *)
(* into the core                                                             *)
MassKept(c, s, p, core, can) ==
    IF c.loss /\ can THEN p.m <= s.m + 1 /\ p.m >= core - 1 ELSE p.m = s.m
MergeClause(st, c, ev, e) ==
    LET k == Donor(ev)  j == Other(k)  both == c.prof /\ (~ IsDouble(ev) \/ c.prof2) IN
    IF e.b.state # "merged" THEN "the merger does not leave a merged binary"
    ELSE IF e.b.event # MergeEvent(k) THEN "the merger is assigned to the wrong star"
    ELSE IF ~ MassKept(c, st[k], e.star[k], Core(c, st[k]).m, both)
         THEN "mass is not conserved in the merger"
    ELSE IF ~ MassKept(c, st[j], e.star[j], IF IsDouble(ev) THEN Core(c, st[j]).m ELSE st[j].m, both /\ IsDouble(ev))
         THEN "mass of the companion is not conserved in the merger"
    ELSE IF e.star[k].state # st[k].state \/ e.star[j].state # st[j].state THEN "a star changed its kind before merging"
    ELSE IF CoreType(st[k].state) = "He_core" /\ (e.star[k].he # st[k].he \/ e.star[k].co # st[k].co)
         THEN "the merger changed a core" 
    ELSE "ok"

CEClause(s, e) ==
    LET st == s.st  c == s.c  ev == s.event  k == Donor(ev) IN
    IF Refused(c, ev, st)
    THEN IF e.err # "ValueError" THEN "a common envelope that cannot be computed was not refused"
         ELSE IF e.touched # <<>> THEN "a refused common envelope changed the binary" ELSE "ok"
    ELSE IF e.err # "none" THEN "a common envelope failed: " \o e.err
    ELSE IF ~ e.b.timesame THEN "the common envelope took time"
    ELSE IF e.b.keepbad # <<>> THEN "the common envelope changed the history of the binary"
    ELSE IF st[k].state \in Coreless(c)
    THEN IF e.b.state # "merged" \/ e.b.event # MergeEvent(k) THEN "a donor without a core survived"
         ELSE IF e.touched # <<>> THEN "a donor without a core was changed before the merger" ELSE "ok"
    ELSE LET o == e.cand[Key(c, ev, st)] IN
         IF e.b.state = "merged"
         THEN IF o.fate = "survives" THEN "cores that fit in their Roche lobes merged" ELSE MergeClause(st, c, ev, e)
         ELSE IF o.fate = "merges" THEN "cores that overfill their Roche lobes survived" 
         ELSE IF e.matched # o.matched THEN "the companion was rematched when it should not be, or the other way round"
         ELSE EjectClause(st, c, ev, e)

Fresh(e) == [none |-> FALSE, c |-> e.c, st |-> e.st, event |-> e.event, n |-> 0]
Clause(s, e) ==
    CASE e.ev = "ce" -> CEClause(s, e)
      [] e.ev = "mirror" -> IF e.diff = <<>> THEN "ok" ELSE "which star is called the primary changes the outcome"
      (* the companion expands and overflows its Roche lobe in turn           *)
      [] e.ev = "next" -> IF e.event \in CEEvents THEN "ok" ELSE "harness"
      [] OTHER -> "the step raised " \o e.ev
Apply(s, e) ==
    CASE e.ev = "ce" -> [s EXCEPT !.n = @ + 1]
      [] e.ev = "next" -> [s EXCEPT !.st = e.st, !.event = e.event]
      [] OTHER -> s
=============================================================================
