-------------------------------- MODULE SNMC --------------------------------
(* Exhaustive model of up to two supernovae in one system: every mass table  *)
(* entry, every model option, every outcome of the orbit.  The events built  *)
(* here must be accepted by the same Clause that judges the real code.       *)
EXTENDS SN
CONSTANTS Small
VARIABLES s, n, ok, hist
Triples == IF Small THEN { <<900, 700, 600>>, <<2000, 0, 0>>, <<8000, 2000, 1400>>, <<12000, 4500, 3000>>, <<40000, 25000, 20000>>, <<125000, 80000, 70000>> }
           ELSE { <<900, 700, 600>>, <<450, 400, 0>>, <<300, 0, 0>>, <<2000, 0, 0>>,
             <<8000, 2000, 1370>>, <<2200, 2100, 1400>>, <<9000, 2500, 1430>>, <<9000, 2501, 1431>>,
             <<9000, 3000, 1800>>, <<3100, 3000, 2499>>, <<12000, 4000, 2500>>, <<12000, 4500, 3000>>, <<5100, 5000, 3500>>,
             <<15000, 6500, 5000>>, <<16000, 8000, 6000>>, <<9000, 8500, 6500>>, <<20000, 9000, 7000>>, <<22000, 12000, 9000>>,
             <<30000, 14000, 11000>>, <<16000, 15000, 11001>>, <<40000, 25000, 20000>>,
             <<60000, 36000, 30000>>, <<70000, 44000, 38000>>, <<52000, 50000, 45000>>, <<90000, 56000, 50000>>,
             <<65000, 60000, 55000>>, <<100000, 65000, 60000>>, <<125000, 80000, 70000>>, <<150000, 130000, 115000>> }
Star(t) == [state |-> "stripped_He_Core_C_depleted", m |-> t[1], he |-> t[2], co |-> t[3]]
Comps == IF Small THEN { Star(t) : t \in Triples } \cup
             { [state |-> x, m |-> 1000, he |-> 0, co |-> 0] : x \in {"WD", "NS", "H-rich_Core_H_burning"} }
         ELSE { [state |-> "H-rich_Core_H_burning", m |-> 8000, he |-> 0, co |-> 0] }
NoInterp == [on |-> FALSE, type |-> "", state |-> "", m |-> 0, spin |-> 0, ffb |-> 0]
Cfgs == [mech : {"Fryer+12-rapid", "Fryer+12-delayed", "direct", "direct_he_core"},
         ecsn : IF Small THEN {"Tauris+15"} ELSE {"Tauris+15", "Podsiadlowski+04", "None"},
         pisn : IF Small THEN {"Marchant+19"} ELSE {"None", "40", "Marchant+19", "Hendriks+23"},
         consH : BOOLEAN, consPPI : IF Small THEN {FALSE} ELSE BOOLEAN, ppi : {0}, maxl : {500}, norm : {"one"},
         kick : BOOLEAN, presc : {"none"}, sigE : {20}, sigN : {265}, sigB : {265}, interp : {NoInterp}]
Grav(c, r) == IF CapLoss(c, r) THEN r - c.maxl
              ELSE CHOOSE g \in (r - c.maxl - 600)..r : Near(g + (75 * ((g * g) \div 1000)) \div 1000, r, 1)
Init == /\ \E c \in Cfgs, t \in Triples, o \in Comps, b \in {"detached", "disrupted"} :
             s = [none |-> FALSE, c |-> c, st |-> <<Star(t), o>>, bstate |-> b, event |-> "CC1", first |-> FALSE,
                  tilt |-> <<<<"None", "None">>, <<"None", "None">>>>, dead |-> FALSE]
        /\ n = 0 /\ ok = "ok" /\ hist = <<>>
Remn(k) == LET c == s.c  st == s.st[k]  t == Type(c, st)
               g == IF t = "WD" THEN WDMass(st) ELSE IF t = "PISN" THEN 0 ELSE Grav(c, RemBar(c, st))
               kd == IF t = "WD" THEN "WD" ELSE IF t = "PISN" THEN "massless_remnant" ELSE IF g > 2500 THEN "BH" ELSE "NS"
               M == Collapsing(c, st) - Proto(c, st)
           IN [state |-> kd, m |-> g, type |-> t, spin |-> 0, keys |-> <<"state", "mass">>,
               ffb |-> IF c.mech \in {"direct", "direct_he_core"} THEN 10000 ELSE IF M = 0 THEN 0 ELSE (Fallback(c, st) * 10000) \div M,
               kick |-> IF t = "WD" \/ ~ c.kick THEN "unset" ELSE "set", kickkept |-> TRUE, anglesok |-> TRUE, v |-> 0, ratio |-> 0,
               t1 |-> s.tilt[k][1], t2 |-> s.tilt[k][2]]
Orb(state, first, num) ==
    [state |-> state, event |-> "None", sep |-> num, ecc |-> num, per |-> num, insp |-> "nan", first |-> first, timesame |-> TRUE,
     mtc |-> "None", oracle |-> "edge", dsep |-> 0, decc |-> 0, dper |-> 0, dtilt |-> 0, dv |-> 0, dnu |-> 0, dcomb |-> 0, dadia |-> 0,
     dinsp |-> 0, eccsame |-> TRUE]
Event(k, broken) ==
    LET p == Remn(k)  o == s.st[Other(k)]  c == s.c
        wd == p.type = "WD"
        gone == p.state = "massless_remnant" \/ o.state = "massless_remnant"
        bs == IF s.bstate \in Unbound THEN s.bstate
              ELSE IF wd THEN "detached" ELSE IF gone THEN "disrupted"
              ELSE IF ~ c.kick THEN "detached" ELSE IF broken THEN "disrupted" ELSE "detached"
        fl == s.first \/ (~ wd /\ c.kick)
        num == IF bs = "detached" THEN "num" ELSE "nan"
        tl == IF s.bstate \in Unbound \/ wd \/ ~ c.kick THEN <<s.tilt[k], s.tilt[Other(k)]>>
              ELSE LET v == IF bs = "disrupted" THEN "nan" ELSE IF s.first THEN "second" ELSE "first" IN
                   IF s.first THEN <<<<s.tilt[k][1], v>>, <<s.tilt[Other(k)][1], v>>>>
                   ELSE <<<<v, "None">>, <<v, "None">>>>
        b0 == Orb(bs, fl, num)
        e0 == [t |-> "mc", ev |-> "sn", star_no |-> k, err |-> "none", preset |-> FALSE,
               star |-> [p EXCEPT !.t1 = tl[1][1], !.t2 = tl[1][2]],
               comp |-> [state |-> o.state, m |-> o.m, changed |-> <<>>, t1 |-> tl[2][1], t2 |-> tl[2][2]],
               b |-> [b0 EXCEPT !.insp = IF bs = "detached" /\ p.state \in CO /\ o.state \in CO THEN "num" ELSE "nan"]]
    IN [e0 EXCEPT !.b.event = NextEvent(s, e0)]
Collapse(k) == \E broken \in BOOLEAN :
    /\ s.event = (IF k = 1 THEN "CC1" ELSE "CC2")
    /\ ~ s.dead
    /\ IF Refused(s, k)
       THEN LET e == [t |-> "mc", ev |-> "sn", star_no |-> k, err |-> "ModelError"] IN
            s' = Apply(s, e) /\ ok' = Clause(s, e) /\ hist' = hist
       ELSE LET e == Event(k, broken) IN
            s' = Apply(s, e) /\ ok' = Clause(s, e) /\ hist' = Append(hist, <<k, s.st[k].m, e.star.m>>)
    /\ n' = n + 1
(* a main-sequence companion ages until it collapses too                     *)
Age == /\ s.event = "None" /\ ~ s.dead
       /\ \E k \in {1, 2} :
          /\ s.st[k].state = "H-rich_Core_H_burning"
          /\ s' = [s EXCEPT !.st[k] = Star(<<12000, 4500, 3000>>), !.event = IF k = 1 THEN "CC1" ELSE "CC2"]
       /\ UNCHANGED <<n, ok, hist>>
Next == Collapse(1) \/ Collapse(2) \/ Age
Spec == Init /\ [][Next]_<<s, n, ok, hist>>
Accepted == ok = "ok"
AtMostOnce == n <= 2 /\ \A i, j \in 1..Len(hist) : i # j => hist[i][1] # hist[j][1]
NeverHeavier == \A i \in 1..Len(hist) : hist[i][3] >= 0 /\ hist[i][3] <= hist[i][2]
DisruptedForGood == [][s.bstate = "disrupted" => s'.bstate = "disrupted"]_<<s, n, ok, hist>>
FirstMonotone == [][s.first => s'.first]_<<s, n, ok, hist>>
TiltsKept == [][\A k \in {1, 2} : s.tilt[k][1] # "None" => s'.tilt[k][1] = s.tilt[k][1]]_<<s, n, ok, hist>>
=============================================================================
