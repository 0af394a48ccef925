-------------------------------- MODULE SN ----------------------------------
(* The supernova step: one star of a binary collapses, and the orbit reacts. *)
(* Masses are integers in 1/1000 Msun; -1 stands for "not a number" and -2   *)
(* for "not set".  Fractions are integers in 1/10000.                        *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
Set(q) == { q[i] : i \in 1..Len(q) }

(* ---- what kind of supernova ------------------------------------------- *)
SNType(c, st) ==
    IF c.ecsn = "Podsiadlowski+04"
    THEN IF st.he < 1400 THEN "WD" ELSE IF st.he <= 2500 THEN "ECSN" ELSE "CCSN"
    ELSE IF st.co < 1370 THEN "WD"
         ELSE IF c.ecsn = "Tauris+15" /\ st.co <= 1430 THEN "ECSN" ELSE "CCSN"

NoRemnant == -9        \* the model has no answer: the collapse must be refused
WDMass(st) == IF st.co > 0 THEN st.co
              ELSE IF st.he > 0 THEN st.he
              ELSE IF st.m < 500 THEN st.m ELSE NoRemnant

(* ---- baryonic mass of the remnant ------------------------------------- *)
Collapsing(c, st) == IF c.consH THEN st.m ELSE st.he
Proto(c, st) ==
    IF SNType(c, st) = "ECSN" THEN (IF c.ecsn = "Podsiadlowski+04" THEN 1380 ELSE st.co)
    ELSE IF c.mech = "Fryer+12-rapid" THEN 1100
    ELSE IF st.co < 3500 THEN 1200 ELSE IF st.co < 6000 THEN 1300
    ELSE IF st.co < 11000 THEN 1400 ELSE 1600
(* mass that falls back *)
Fallback(c, st) ==
    LET M == Collapsing(c, st) - Proto(c, st) IN
    IF SNType(c, st) = "ECSN" THEN 0
    ELSE IF c.mech = "Fryer+12-rapid"
    THEN IF st.co < 2500 THEN 200
         ELSE IF st.co < 6000 THEN (286 * st.co) \div 1000 - 514
         ELSE IF st.co < 7000 THEN M
         ELSE IF st.co < 11000 THEN M + (((10 * M) \div 4 - 12750) * (st.co - 11000)) \div 10000
         ELSE M
    ELSE IF st.co < 2500 THEN 200
         ELSE IF st.co < 3500 THEN st.co \div 2 - 1050
         ELSE IF st.co < 11000 THEN M + (((133 * M - 93000) \div 100) * (st.co - 11000)) \div 10000
         ELSE M
Bary(c, st) == IF c.mech = "direct" THEN Collapsing(c, st)
               ELSE IF c.mech = "direct_he_core" THEN st.he
               ELSE Proto(c, st) + Fallback(c, st)
(* fraction of the mass above the proto-remnant that falls back *)
FbOK(c, st, f) ==
    IF c.mech \in {"direct", "direct_he_core"} THEN f = 10000
    ELSE LET M == Collapsing(c, st) - Proto(c, st) IN
         IF SNType(c, st) = "ECSN" THEN f = 0
         ELSE Near((f * (M \div 10)) \div 1000, Fallback(c, st), 4 + M \div 5000)

(* ---- pair instability: a cap on the baryonic mass --------------------- *)
Free == 1000000000
Gone == -1
(* published fits at tabulated core masses (Marchant+19 he-core -> mass;     *)
(* Hendriks+23 CO-core -> pulsational mass loss at solar metallicity)        *)
MarchantTab == [x \in {36000, 44000, 50000, 56000, 60000} |->
                CASE x = 36000 -> 35715 [] x = 44000 -> 42222 [] x = 50000 -> 44338
                  [] x = 56000 -> 39657 [] x = 60000 -> 27123]
HendriksTab == [x \in {38000, 45000, 50000, 55000, 60000, 70000, 114000} |->
                CASE x = 38000 -> 127 [] x = 45000 -> 4419 [] x = 50000 -> 14770
                  [] x = 55000 -> 34841 [] x = 60000 -> 67849 [] x = 70000 -> 185554
                  [] x = 114000 -> 2123770]
Cap(c, st) ==
    CASE c.pisn = "None" -> Free
      [] c.pisn = "40" -> IF st.he > 40000 THEN 40000 ELSE Free
      [] c.pisn = "Marchant+19" ->
            IF st.he \in 31990..61100 THEN MarchantTab[st.he]
            ELSE IF st.he > 61100 /\ st.he < 124120 THEN Gone ELSE Free
      [] c.pisn = "Hendriks+23" ->
            LET d == IF st.co \in 38000..114000 THEN HendriksTab[st.co] + c.ppi ELSE 0
                m1 == (IF c.consPPI THEN st.m ELSE st.he) - d
                st1 == [m |-> m1, he |-> Min(st.he, m1), co |-> Min(st.co, m1)]
            IN IF d <= 0 THEN Free
               ELSE IF m1 < 0 THEN Gone
               ELSE IF SNType(c, st1) = "WD" \/ Bary(c, st1) < 10000 THEN Gone
               ELSE Bary(c, st1)
(* both sides of every threshold stay clear of rounding for the cases used  *)
Type(c, st) == LET t == SNType(c, st)  k == Cap(c, st) IN
               IF t = "WD" THEN "WD"
               ELSE IF k = Gone THEN "PISN"
               ELSE IF Bary(c, st) > k THEN "PPISN" ELSE t
RemBar(c, st) == Min(Bary(c, st), Cap(c, st))
(* gravitational mass g of a remnant of baryonic mass r (Lattimer & Yahil;   *)
(* neutrino losses are capped)                                               *)
CapLoss(c, r) == LET g == r - c.maxl IN g > 5000 \/ 75 * ((g * g) \div 1000) > c.maxl * 1000
GravOK(c, r, g) == IF CapLoss(c, r) THEN Near(g, r - c.maxl, 3)
                   ELSE g <= 5000 /\ Near(g + (75 * ((g * g) \div 1000)) \div 1000, r, 3)

Kinds == {"WD", "NS", "BH"}
(* ---- verdict on the remnant ------------------------------------------- *)
RemnantClause(c, st, p) ==
    LET t == Type(c, st) IN
    IF p.type # t THEN "wrong type of supernova"
    ELSE IF t = "WD" THEN
        IF p.state # "WD" THEN "a white-dwarf progenitor did not become a white dwarf"
        ELSE IF ~ Near(p.m, WDMass(st), 1) THEN "wrong white-dwarf mass" ELSE "ok"
    ELSE IF t = "PISN" THEN
        IF p.state # "massless_remnant" THEN "a pair-instability supernova left a remnant"
        ELSE IF p.m # 0 THEN "a massless remnant has a mass" ELSE "ok"
    ELSE LET r == RemBar(c, st) IN
        IF ~ GravOK(c, r, p.m) THEN "wrong remnant mass"
        ELSE IF p.m # 2500 /\ p.state # (IF p.m > 2500 THEN "BH" ELSE "NS") THEN "remnant mass and kind disagree"
        ELSE IF t = Type(c, st) /\ ~ FbOK(c, st, p.ffb) THEN "wrong fallback fraction"
        ELSE IF p.spin < 0 \/ p.spin > 10000 THEN "spin of the remnant is not in [0,1]"
        ELSE IF p.state = "NS" /\ p.m < 2500 /\ p.spin # 0 THEN "a neutron star is born spinning"
        ELSE IF ~ (Set(p.keys) \subseteq {"state", "mass", "spin", "log_R", "metallicity",
                     "m_disk_accreted", "m_disk_radiated", "co_core_mass"})
             THEN "a compact object keeps properties of the star it was"
        ELSE "ok"
(* an outcome that was interpolated beforehand is used when it is consistent *)
(* with the star, otherwise the core masses decide                           *)
InterpType(c, st) == IF c.interp.type = "ECSN" THEN SNType(c, st) ELSE c.interp.type
InterpUsed(c, st) == /\ c.interp.on
                     /\ SNType(c, st) \in {"WD", "CCSN"}
                     /\ InterpType(c, st) = SNType(c, st)
                     /\ \/ SNType(c, st) = "WD" /\ c.interp.state = "WD"
                        \/ SNType(c, st) = "CCSN" /\ c.interp.state \in {"NS", "BH"}
                     /\ c.interp.m > 0
CollapseClause(c, st, p) ==
    IF InterpUsed(c, st)
    THEN IF p.type # SNType(c, st) \/ p.state # c.interp.state \/ ~ Near(p.m, c.interp.m, 0)
               \/ p.spin # c.interp.spin \/ (p.ffb # c.interp.ffb)
         THEN "the interpolated outcome was not used" ELSE "ok"
    ELSE RemnantClause(c, st, p)

(* ---- natal kick ------------------------------------------------------- *)
(* kick in m/s, given `ref`, the kick (m/s) that a unit-width, unnormalised  *)
(* distribution draws from the same random numbers (1000 = one width)        *)
Sigma(c, p) == IF p.type = "ECSN" THEN c.sigE ELSE IF p.state = "NS" THEN c.sigN ELSE c.sigB
KickOK(c, st, p) ==
    LET norm10k == CASE c.norm = "one" -> 10000
                     [] c.norm = "zero" -> 0
                     [] c.norm = "one_over_mass" -> IF p.state = "BH" THEN 14000000 \div p.m ELSE 10000
                     [] c.norm = "one_minus_fallback" -> 10000 - p.ffb
                     [] c.norm = "NS_one_minus_fallback_BH_one" -> IF p.state = "BH" THEN 10000 ELSE 10000 - p.ffb
        scale == (Sigma(c, p) * norm10k) \div 1000         \* in 1/10 km/s
        (* v = ref * sigma * norm ; p.ratio = v/ref in 1/10 km/s *)
    IN Near(p.ratio, scale, 2 + scale \div 200)
AsymKick(st, g) == (* m/s *) LET r == g + (75 * (((g \div 10) * (g \div 10)) \div 10)) \div 1000
                             IN ((3165 * (Abs(st.m - r) \div 10)) \div g) * 100
LinKick(st, g) == IF st.co < g THEN 15000 ELSE 115 * ((1000 * (st.co - g)) \div g) + 15000
(* NOTE on the order: products are kept below 2^31                           *)
KickClause(c, st, e) ==
    LET p == e.star IN
    IF ~ c.kick THEN (IF e.preset \/ p.kick = "unset" THEN "ok" ELSE "a kick was drawn although kicks are off")
    ELSE IF p.type = "WD" THEN (IF ~ (p.kick = "unset" \/ (e.preset /\ p.kickkept)) THEN "a white dwarf was kicked" ELSE "ok")
    ELSE IF p.kick # "set" THEN "no natal kick is recorded for the supernova"
    ELSE IF e.preset THEN (IF p.kickkept THEN "ok" ELSE "a kick given by the user was replaced")
    ELSE IF ~ p.anglesok THEN "a drawn kick direction or orbital phase is out of range"
    ELSE IF p.state = "massless_remnant" THEN (IF p.v = 0 THEN "ok" ELSE "a massless remnant was kicked")
    ELSE IF c.presc = "maxwellian" THEN
         (IF KickOK(c, st, p) THEN "ok" ELSE "the kick does not follow the chosen width and normalisation")
    ELSE IF c.presc = "linear" THEN
         (IF Near(p.v, LinKick(st, p.m), 40 + Abs(LinKick(st, p.m)) \div 100) THEN "ok"
          ELSE "the kick does not follow the ejecta-mass prescription")
    ELSE IF c.presc = "asym_ej" THEN
         (IF Near(p.v, AsymKick(st, p.m), 200 + AsymKick(st, p.m) \div 100) THEN "ok"
          ELSE "the kick does not follow the ejecta-mass prescription")
    ELSE "ok"

(* ---- the orbit -------------------------------------------------------- *)
Unbound == {"disrupted", "initially_single_star", "merged"}
Other(k) == 3 - k
NoOrbit(b) == b.sep = "nan" /\ b.ecc = "nan" /\ b.per = "nan"
Numbers(b) == b.sep = "num" /\ b.ecc = "num" /\ b.per = "num"
PTol == 1000           \* ppm: two sets of constants are in use
Tol == 20000           \* ppm: the code rounds one direction cosine to 1e-5
MassLossOnly(s, e) == \* no impulse: the orbit widens with the mass that was lost
    /\ Numbers(e.b) /\ e.b.dadia <= 100 /\ e.b.dper <= PTol /\ e.b.eccsame

CollapsedSet(s) == { k \in {1, 2} : s.st[k].state \in {"WD", "NS", "BH", "massless_remnant"} }
TiltClause(s, e) ==
    LET b == e.b  k == e.star_no  me == e.star  ot == e.comp  wd == me.type = "WD" IN
    IF s.bstate \in Unbound \/ wd \/ ~ s.c.kick
    THEN IF me.t1 # s.tilt[k][1] \/ me.t2 # s.tilt[k][2] \/ ot.t1 # s.tilt[Other(k)][1] \/ ot.t2 # s.tilt[Other(k)][2]
         THEN "a spin-orbit tilt changed without an orbital plane being tilted" ELSE "ok"
    ELSE IF ~ s.first
    THEN IF me.t2 # "None" \/ ot.t2 # "None" THEN "the first supernova wrote the tilt of a second one"
         ELSE IF b.state = "disrupted" /\ (me.t1 # "nan" \/ ot.t1 # "nan") THEN "tilt after disruption"
         ELSE IF b.state = "detached" /\ (me.t1 # ot.t1 \/ me.t1 \in {"nan", "None"})
              THEN "the first supernova does not tilt both spins by the same angle"
         ELSE "ok"
    ELSE IF me.t1 # s.tilt[k][1] \/ ot.t1 # s.tilt[Other(k)][1] THEN "a later supernova rewrote the first tilt"
         ELSE IF b.state = "disrupted" /\ (me.t2 # "nan" \/ ot.t2 # "nan") THEN "tilt after disruption"
         ELSE IF b.state = "detached" /\ (me.t2 \in {"nan", "None"} \/ ot.t2 \in {"nan", "None"})
              THEN "the second supernova recorded no tilt"
         ELSE "ok"
OrbitClause(s, e) ==
    LET b == e.b  k == e.star_no  wd == e.star.type = "WD"
        gone == e.star.state = "massless_remnant" \/ s.st[Other(k)].state = "massless_remnant" IN
    IF ~ b.timesame THEN "the supernova took time"
    ELSE IF s.bstate \in Unbound
    THEN IF b.state # s.bstate THEN "a supernova changed the state of an unbound system"
         ELSE IF ~ wd /\ s.c.kick /\ ~ NoOrbit(b) THEN "an unbound system has an orbit"
         ELSE IF b.first # (s.first \/ (~ wd /\ s.c.kick)) THEN "wrong record of the first supernova"
         ELSE "ok"
    ELSE IF wd
    THEN IF b.state # "detached" THEN "white-dwarf formation does not leave a detached binary"
         ELSE IF ~ gone /\ ~ MassLossOnly(s, e) THEN "white-dwarf formation does not widen the orbit adiabatically"
         ELSE IF b.first # s.first THEN "white-dwarf formation counts as a supernova"
         ELSE "ok"
    ELSE IF gone
    THEN IF b.state # "disrupted" \/ ~ NoOrbit(b) THEN "a massless remnant stays in a binary"
         ELSE IF s.c.kick /\ ~ b.first THEN "wrong record of the first supernova"
         ELSE "ok"
    ELSE IF ~ s.c.kick
    THEN IF b.state # "detached" \/ ~ MassLossOnly(s, e) THEN "without kicks the orbit must only react to the mass loss" ELSE "ok"
    ELSE IF ~ b.first THEN "wrong record of the first supernova"
    ELSE IF b.state = "disrupted"
    THEN IF ~ NoOrbit(b) THEN "a disrupted binary has an orbit"
         ELSE IF b.oracle = "bound" THEN "a binary that stays bound was disrupted" ELSE "ok"
    ELSE IF b.state = "detached"
    THEN IF b.oracle = "unbound" THEN "a binary that is unbound was kept"
         ELSE IF ~ Numbers(b) THEN "a bound binary has no orbit"
         ELSE IF b.oracle = "edge" THEN "ok"
         ELSE IF b.dsep > Tol THEN "orbital energy is not conserved by the kick"
         ELSE IF b.decc > Tol THEN "orbital angular momentum is not conserved by the kick"
         ELSE IF b.dper > PTol THEN "separation and period disagree"
         ELSE IF b.dtilt > Tol THEN "wrong tilt of the orbital plane"
         ELSE IF b.dv > Tol THEN "wrong systemic velocity"
         ELSE IF b.dnu > Tol THEN "wrong orbital phase recorded for the supernova"
         ELSE IF b.dcomb > Tol THEN "the tilts of two supernovae are combined wrongly"
         ELSE "ok"
    ELSE "the supernova left an unknown binary state"

CDepleted == {"H-rich_Core_C_depleted", "stripped_He_Core_C_depleted"}
CO == {"WD", "NS", "BH"}
NextEvent(s, e) ==
    LET k == e.star_no  o == s.st[Other(k)].state IN
    IF e.b.state = "disrupted" \/ e.star.state = "massless_remnant" \/ o = "massless_remnant" THEN "None"
    ELSE IF o \in CDepleted THEN (IF k = 1 THEN "CC2" ELSE "CC1")
    ELSE "None"
AfterClause(s, e) ==
    LET k == e.star_no  o == s.st[Other(k)] IN
    IF e.b.event # NextEvent(s, e) THEN "wrong event after the supernova"
    ELSE IF e.comp.state # o.state \/ e.comp.m # o.m THEN "the supernova changed the companion"
    ELSE IF ~ (Set(e.comp.changed) \subseteq {"lg_mdot", "lg_system_mdot"}) THEN "the supernova changed the companion"
    ELSE IF e.b.mtc # (IF s.c.kick THEN "None" ELSE e.b.mtc) THEN "a mass-transfer case survived the supernova"
    ELSE IF e.b.state \notin Unbound /\ e.star.state \in CO /\ o.state \in CO
         THEN IF e.b.insp # "num" THEN "no merger time for two compact objects"
              ELSE IF e.b.dinsp > 30000 THEN "wrong merger time for two compact objects" ELSE "ok"
    ELSE IF e.b.state = "disrupted" /\ e.b.insp # "nan" THEN "an unbound system has a merger time"
    ELSE "ok"

(* ---- events ----------------------------------------------------------- *)
CCStates == {"H-rich_Core_C_depleted", "H-rich_Core_He_depleted", "stripped_He_Core_He_depleted",
             "stripped_He_Core_C_depleted", "stripped_He_non_burning", "H-rich_non_burning",
             "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning", "accreted_He_non_burning"}
Refused(s, k) == \/ s.st[k].state \notin CCStates
                 \/ SNType(s.c, s.st[k]) = "WD" /\ ~ InterpUsed(s.c, s.st[k]) /\ WDMass(s.st[k]) = NoRemnant
First(cs) == IF \E i \in 1..Len(cs) : cs[i] # "ok"
             THEN cs[CHOOSE i \in 1..Len(cs) : cs[i] # "ok" /\ \A j \in 1..(i-1) : cs[j] = "ok"]
             ELSE "ok"
SNClause(s, e) ==
    LET k == e.star_no IN
    IF s.event # (IF k = 1 THEN "CC1" ELSE "CC2") THEN "harness: wrong star"
    ELSE IF Refused(s, k)
    THEN IF e.err # "ModelError" THEN "a star that cannot collapse was collapsed" ELSE "ok"
    ELSE IF e.err # "none" THEN "a collapse failed: " \o e.err
    ELSE First(<<CollapseClause(s.c, s.st[k], e.star), KickClause(s.c, s.st[k], e),
                 OrbitClause(s, e), TiltClause(s, e), AfterClause(s, e)>>)

Fresh(e) == [none |-> FALSE, c |-> e.c, st |-> e.st, bstate |-> e.bstate, event |-> e.event,
             first |-> e.first, tilt |-> <<<<"None", "None">>, <<"None", "None">>>>, dead |-> FALSE]
Clause(s, e) ==
    CASE e.ev = "sn" -> SNClause(s, e)
      (* the same system with the two stars exchanged                         *)
      [] e.ev = "mirror" -> IF e.diff = <<>> THEN "ok" ELSE "which star is called the primary changes the outcome"
      (* the same collapse repeated with the recorded kick                    *)
      [] e.ev = "again" -> IF e.diff = <<>> THEN "ok" ELSE "the recorded kick does not reproduce the outcome"
      (* the other star reaches core collapse later                           *)
      [] e.ev = "age" -> "ok"
      [] OTHER -> "the step raised " \o e.ev
Apply(s, e) ==
    IF e.ev = "sn" /\ e.err = "none"
    THEN LET k == e.star_no IN
         [s EXCEPT !.st[k] = [state |-> e.star.state, m |-> e.star.m, he |-> 0, co |-> 0],
                   !.bstate = e.b.state, !.event = e.b.event, !.first = e.b.first,
                   !.tilt = [j \in {1, 2} |-> IF j = k THEN <<e.star.t1, e.star.t2>> ELSE <<e.comp.t1, e.comp.t2>>]]
    ELSE IF e.ev = "sn" THEN [s EXCEPT !.dead = TRUE]
    ELSE IF e.ev = "age" THEN [s EXCEPT !.st[e.star_no] = e.st, !.event = IF e.star_no = 1 THEN "CC1" ELSE "CC2", !.c = e.c]
    ELSE s
=============================================================================
