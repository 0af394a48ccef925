-------------------------------- MODULE CEMC --------------------------------
(* Exhaustive model of the common envelopes of one binary: both stars age,   *)
(* overflow, are stripped of their hydrogen and later of their helium, or    *)
(* merge.  The event built here must be accepted by the Clause that judges   *)
(* the real code.                                                            *)
EXTENDS CE
VARIABLES s, n, ok, bst, age
S0(st, m, he, co) == [state |-> st, m |-> m, r |-> 100000, he |-> he, rhe |-> 500, co |-> co, rco |-> 100,
    m1 |-> he + 10, r1 |-> 510, m10 |-> he + 20, r10 |-> 600, m30 |-> he - 5, r30 |-> 900, mp |-> co + 5, rp |-> 150, z |-> 142]
Youth == { S0("H-rich_Core_H_burning", 12000, 0, 0), S0("H-rich_Shell_H_burning", 12000, 4000, 0), S0("H-rich_Core_He_burning", 20000, 7000, 0),
           S0("stripped_He_Core_He_burning", 5000, 5000, 2000), S0("NS", 1400, 0, 0) }
Cfgs == [lam : {"default_lambda", "lambda_from_grid_final_values"}, frac : Fractions, hefrac : {"0.1"}, after : Afters,
         hg : {"optimistic", "pessimistic"}, loss : BOOLEAN, presc : {"alpha-lambda"}, prof : BOOLEAN, prof2 : {FALSE}]
Init == /\ \E c \in Cfgs, x \in Youth, y \in Youth : s = [none |-> FALSE, c |-> c, st |-> <<x, y>>, event |-> "none", n |-> 0]
        /\ n = 0 /\ ok = "ok" /\ bst = "detached" /\ age = 0
(* stellar evolution between the envelopes                                   *)
Older(x) == CASE x.state = "H-rich_Core_H_burning" -> {[x EXCEPT !.state = "H-rich_Shell_H_burning", !.he = 3000, !.m1 = 3010, !.m10 = 3020, !.m30 = 3200]}
              [] x.state = "H-rich_Shell_H_burning" -> {[x EXCEPT !.state = "H-rich_Core_He_burning"]}
              [] x.state = "H-rich_Core_He_burning" -> {[x EXCEPT !.state = "H-rich_Core_He_depleted", !.co = x.he \div 2, !.mp = x.he \div 2 + 5]}
              [] x.state \in {"stripped_He_Core_He_burning", "stripped_He_non_burning"} ->
                    {[x EXCEPT !.state = "stripped_He_Core_He_depleted", !.co = x.m \div 2, !.mp = x.m \div 2 + 5]}
              [] OTHER -> {}
Age == /\ bst = "detached" /\ s.event = "none" /\ age < 3
       /\ \E k \in {1, 2} : \E x \in Older(s.st[k]) : s' = [s EXCEPT !.st[k] = x]
       /\ age' = age + 1 /\ UNCHANGED <<n, ok, bst>>
Overflow == /\ bst = "detached" /\ s.event = "none" /\ n < 3
            /\ \E ev \in CEEvents : (IsDouble(ev) => \A k \in {1, 2} : s.st[k].state # "H-rich_Core_H_burning") /\ s' = [s EXCEPT !.event = ev]
            /\ UNCHANGED <<n, ok, bst, age>>
Strip(c, x) == LET f == Final(c, x) IN
    [state |-> (IF H1(c, x) > 100 THEN "H-rich_" ELSE "stripped_He_") \o Suffix(x.state), m |-> f.m, r |-> f.r, he |-> f.m, rhe |-> f.r,
     co |-> IF CoreType(x.state) = "CO_core" THEN f.m ELSE x.co, rco |-> IF CoreType(x.state) = "CO_core" THEN f.r ELSE x.rco,
     h1 |-> H1(c, x), he4 |-> He4(c, x), changed |-> <<>>, left |-> <<>>, lost |-> <<>>]
Same(x) == [state |-> x.state, m |-> x.m, r |-> x.r, he |-> x.he, rhe |-> x.rhe, co |-> x.co, rco |-> x.rco, h1 |-> 7000, he4 |-> 2800,
            changed |-> <<>>, left |-> <<>>, lost |-> <<>>]
Pack(x, p) == [x EXCEPT !.state = p.state, !.m = p.m, !.r = p.r, !.he = p.he, !.rhe = p.rhe, !.co = p.co, !.rco = p.rco,
               !.m1 = p.he, !.m10 = p.he, !.m30 = p.he, !.mp = p.co]
Envelope ==
    /\ s.event # "none" /\ bst = "detached"
    /\ LET c == s.c  ev == s.event  k == Donor(ev)  j == Other(k)  B(st, x) ==
             [state |-> st, event |-> x, ecc |-> 0, dper |-> 0, left |-> <<>>, timesame |-> TRUE, keepbad |-> <<>>] IN
       IF Refused(c, ev, s.st)
       THEN /\ ok' = Clause(s, [ev |-> "ce", err |-> "ValueError", touched |-> <<>>])
            /\ bst' = "failed" /\ s' = s /\ n' = n + 1 /\ age' = age
       ELSE IF s.st[k].state \in Coreless(c)
       THEN /\ ok' = Clause(s, [ev |-> "ce", err |-> "none", touched |-> <<>>, b |-> B("merged", MergeEvent(k))])
            /\ bst' = "merged" /\ s' = s /\ n' = n + 1 /\ age' = age
       ELSE \E fate \in (IF \A i \in {1, 2} : (i = k \/ IsDouble(ev)) => Core(c, s.st[i]).m > 0 /\ Final(c, s.st[i]).m > 0
                        THEN {"survives", "merges"} ELSE {"merges"}), lose \in {0, 100} :
            LET key == Key(c, ev, s.st)
                cand == [x \in {key} |-> [fate |-> fate, matched |-> 0]]
                dsep == [x \in {key} |-> 0]
                lost == IF c.loss /\ c.prof /\ ~ IsDouble(ev) /\ s.st[k].m - lose >= Core(c, s.st[k]).m THEN lose ELSE 0
                p == [i \in {1, 2} |-> IF fate = "merges" THEN (IF i = k THEN [Same(s.st[i]) EXCEPT !.m = @ - lost] ELSE Same(s.st[i]))
                                      ELSE IF i = k \/ IsDouble(ev) THEN Strip(c, s.st[i]) ELSE Same(s.st[i])]
                b == IF fate = "merges" THEN B("merged", MergeEvent(k))
                     ELSE B("detached", IF s.st[k].state = "stripped_He_Core_He_depleted" THEN CCEvent(k) ELSE "None")
                e == [ev |-> "ce", err |-> "none", touched |-> <<>>, cand |-> cand, dsep |-> dsep, matched |-> 0, star |-> p, b |-> b]
            IN /\ ok' = Clause(s, e)
               /\ bst' = IF b.event \in {"CC1", "CC2"} THEN "collapsing" ELSE b.state
               /\ s' = IF fate = "merges" THEN [s EXCEPT !.st = [i \in {1, 2} |-> [@[i] EXCEPT !.m = p[i].m]]]
                       ELSE [s EXCEPT !.event = "none", !.st = [i \in {1, 2} |-> IF i = k \/ IsDouble(ev) THEN Pack(@[i], p[i]) ELSE @[i]]]
               /\ n' = n + 1 /\ age' = age
Next == Age \/ Overflow \/ Envelope
Spec == Init /\ [][Next]_<<s, n, ok, bst, age>>
Accepted == ok = "ok"
MassNeverGrows == [][\A k \in {1, 2} : s'.st[k].m <= s.st[k].m]_<<s, n, ok, bst, age>>
MergedForGood == [][(bst \in {"merged", "failed", "collapsing"}) => (bst' = bst)]_<<s, n, ok, bst, age>>
(* a star whose hydrogen is gone never shows a hydrogen envelope again       *)
Bare(x) == x.state \in HeGiants
StaysBare == [][\A k \in {1, 2} : Bare(s.st[k]) => Bare(s'.st[k])]_<<s, n, ok, bst, age>>
CoreInside == bst = "detached" => \A k \in {1, 2} : s.st[k].state \notin CO => s.st[k].he <= s.st[k].m /\ s.st[k].co <= s.st[k].he
=============================================================================
