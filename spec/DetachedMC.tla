----------------------------- MODULE DetachedMC -----------------------------
(* The closed model: the two stars age tick by tick and the evolution stops  *)
(* at the first tick at which something has happened.  It must stop within   *)
(* the tick in which the stopping rule of Detached puts the first event, at  *)
(* an event the rule admits for that tick, and whatever the stars are called.*)
EXTENDS Detached, TLC
CONSTANTS Radii, Grow, Ends, Maxs
VARIABLES c, t, out
vars == <<c, t, out>>

S(k) == [kind : {k}, m : {1, 4}, T : IF k \in Stellar THEN Ends ELSE {0}, r : IF k \in Stellar THEN Radii ELSE {0},
         k : IF k \in Stellar THEN Grow ELSE {0}]
Stars == S("H") \cup S("BH")
Init == /\ \E s1 \in Stars, s2 \in Stars, a \in {15, 40}, e \in {0, 10}, mx \in Maxs, am \in BOOLEAN :
              /\ s1.kind = "H" \/ s2.kind = "H"
              /\ c = [what |-> "events", s1 |-> s1, s2 |-> s2, a |-> a, e |-> e, max |-> mx, t0 |-> 0, how |-> "none", hist |-> 1,
                      am |-> am, rlo |-> TRUE, disrupted |-> FALSE]
        /\ t = 0 /\ out = {}

(* what has happened by tick u: radius against lobe, age against end         *)
RadiusAt(i, u) == Own(c, i).r * 10000 + Own(c, i).k * 10000 * u
Happened(u) ==
       {[what |-> "rlo", star |-> i] : i \in {x \in {1, 2} : Normal(c, x) /\ RadiusAt(x, u) >= Limit(Own(c, x), Mate(c, x), c.a, c.e)}}
  \cup {[what |-> "cc", star |-> i] : i \in {x \in {1, 2} : Normal(c, x) /\ u >= Own(c, x).T}}
  \cup (IF u >= c.max THEN {[what |-> "max", star |-> 0]} ELSE {})

Begin == t = 0 /\ out = {} /\ Starts(c) /\ out' = {[what |-> "initial", star |-> 0]} /\ UNCHANGED <<c, t>>
Tick == out = {} /\ ~(t = 0 /\ Starts(c)) /\ t' = t + 1 /\ out' = Happened(t + 1) /\ UNCHANGED c
Next == Begin \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stopped == out # {}
Up(x) == (x + 999) \div 1000
Initial == Stopped /\ \E x \in out : x.what = "initial"
(* the rule and the machine agree on when                                    *)
SameTick == (Stopped /\ ~Initial) => /\ First(c) <= 1000 * t
                                     /\ First(c) > 1000 * (t - 1) - 1
(* ... and on what                                                           *)
SameWhat == (Stopped /\ ~Initial) => \E x \in Candidates(c) : x.at = First(c) /\ [what |-> x.what, star |-> x.star] \in out
(* the earliest candidate is always admissible, and never two names for one  *)
Defined == Admissible(c) # {} /\ \A x, y \in Admissible(c) : Name(x) = Name(y) => x = y
(* at overflow the orbit is circular and no wider                            *)
Circular == \A x \in Candidates(c) : x.what = "rlo" => EndEcc(c, x) = 0 /\ EndSep(c, x) <= 1000 * c.a
(* exchanging the names of the stars exchanges the names of the events       *)
Swap(d) == [d EXCEPT !.s1 = d.s2, !.s2 = d.s1]
Mirror == /\ First(Swap(c)) = First(c)
          /\ Starts(Swap(c)) <=> Starts(c)
          /\ \A x \in Admissible(c) : [x EXCEPT !.star = IF x.star = 0 THEN 0 ELSE 3 - x.star] \in Admissible(Swap(c))
(* the rows of a history: increasing, ending at the end                      *)
RowsSane == \A how \in {"none", "n", "dt"}, h \in 1..4 :
              LET d == [c EXCEPT !.how = how, !.hist = h]
                  r == Rows(d, First(c))
              IN First(c) > 5 => /\ r[Len(r)] = First(c)
                                 /\ \A j \in 1..(Len(r) - 1) : r[j] < r[j + 1]
Terminates == <>Stopped
=============================================================================
