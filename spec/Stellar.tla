------------------------------- MODULE Stellar -------------------------------
(* What kind of star, what kind of mass transfer: the classification every    *)
(* step, grid and flow chart relies on.                                       *)
(* Abundances in 1/10000, luminosities and rates in 1/1000 dex, overflow in   *)
(* 1/1000; Nan marks "not a number", None "not given".                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Nan == -999999
None == -888888
Range(q) == {q[i] : i \in DOMAIN q}
Has(str, sub) == \E i \in 1..Len(str) : i + Len(sub) - 1 <= Len(str) /\ SubSeq(str, i, i + Len(sub) - 1) = sub

(* --- the state of a star from its composition and burning ----------------- *)
BurnsH(x) == x.lh > -10000 /\ x.lh - x.ln >= -1522
BurnsHe(x) == x.lhe > -10000 /\ x.lhe - x.ln >= -1522
Burning(x) == CASE x.h <= 100 /\ x.he <= 100 -> IF x.c <= 100 THEN "Core_C_depleted" ELSE "Core_He_depleted"
                [] x.h > 100 -> IF BurnsH(x) THEN "Core_H_burning" ELSE "non_burning"
                [] OTHER -> IF BurnsHe(x) THEN "Core_He_burning" ELSE IF BurnsH(x) THEN "Shell_H_burning" ELSE "non_burning"
Surface(x) == IF x.hs > 100 THEN "H-rich" ELSE IF x.hs < x.h THEN "accreted_He" ELSE "stripped_He"
StarState(x) == IF x.hs = Nan THEN "undetermined_evolutionary_state" ELSE Surface(x) \o "_" \o Burning(x)
(* compact objects: mass in 1/1000, ab: has any nuclear fuel                  *)
COState(m, ab) == CASE m = Nan \/ m <= 0 -> "massless_remnant"
                    [] (ab \/ m < 1100) /\ m <= 1460 -> "WD"
                    [] m <= 2500 -> "NS"
                    [] OTHER -> "BH"

(* --- the mass-transfer case of one donor at one time ------------------------ *)
(* the star whose overflow is larger is the origin of the mass transfer       *)
NoRLO(rl, rate, dom) == rl = None \/ rate = None \/ (rl <= 0 /\ (rate <= -10000 \/ ~dom))
Case(rl, rate, st, dom) ==
    CASE NoRLO(rl, rate, dom) -> "no_RLO"
      [] Has(st, "non_burning") -> "nonburning"
      [] Has(st, "H-rich") /\ Has(st, "Core_H_burning") -> "A"
      [] Has(st, "H-rich") /\ (Has(st, "Core_He_burning") \/ Has(st, "Shell_H_burning")) -> "B"
      [] Has(st, "H-rich") /\ Has(st, "depleted") -> "C"
      [] Has(st, "stripped_He") /\ Has(st, "Core_He_burning") -> "BA"
      [] Has(st, "stripped_He") /\ Has(st, "depleted") -> "BB"
      [] OTHER -> "?"
Donors == {"A", "B", "C", "BA", "BB", "BC", "nonburning"}

(* --- the binary now --------------------------------------------------------- *)
(* b: cls, rl1, rl2, rate, st1, st2, g1, g2 (plasma coupling, 1/10)           *)
Core(b, k) == LET st == IF k = 1 THEN b.st1 ELSE b.st2 g == IF k = 1 THEN b.g1 ELSE b.g2 IN Has(st, "Core_C_depleted") \/ Has(st, "Core_He_depleted") \/ (g # None /\ g >= 100)
Settled == {"H-rich_Core_H_burning", "stripped_He_Core_He_burning", "WD", "NS", "BH"}
BinaryNow(b) ==
    LET dom1 == IF b.rl1 # None /\ b.rl2 # None THEN b.rl1 >= b.rl2 ELSE b.rl2 = None
        c1 == Case(b.rl1, b.rate, b.st1, dom1)
        c2 == Case(b.rl2, b.rate, b.st2, ~dom1)
        r1 == c1 \in Donors
        r2 == c2 \in Donors
        collapse == IF Core(b, 1) THEN "CC1" ELSE IF Core(b, 2) THEN "CC2" ELSE "None"
        unstable == b.cls = "unstable_MT"
    IN CASE b.cls = "not_converged" -> <<"None", "None", "None">>
         [] b.cls = "initial_MT" -> <<"initial_RLOF", "None", "None">>
         [] r1 /\ r2 -> <<"contact", IF ~unstable THEN collapse
                                     ELSE IF b.rl1 >= b.rl2 THEN (IF b.st2 \in Settled THEN "oCE1" ELSE "oDoubleCE1")
                                     ELSE (IF b.st1 \in Settled THEN "oCE2" ELSE "oDoubleCE2"), "None">>
         [] c1 = "no_RLO" /\ c2 = "no_RLO" -> <<"detached", collapse, "None">>
         [] r1 -> <<"RLO1", IF unstable THEN "oCE1" ELSE collapse, "case_" \o c1 \o "1">>
         [] r2 -> <<"RLO2", IF unstable THEN "oCE2" ELSE collapse, "case_" \o c2 \o "2">>
         [] OTHER -> <<"undefined", collapse, "None">>

(* --- a whole history --------------------------------------------------------- *)
(* cases: sequence of [d |-> donor, c |-> case]                                *)
Order == <<"A", "B", "C", "BA", "BB", "BC", "nonburning">>
Rank(c) == CHOOSE i \in DOMAIN Order : Order[i] = c
(* a donor does not return to an earlier kind of mass transfer                *)
Shifted(q) == [i \in DOMAIN q |-> IF q[i].c \notin Donors THEN q[i]
                 ELSE LET seen == {Rank(q[j].c) : j \in {j \in 1..i : q[j].d = q[i].d /\ q[j].c \in Donors}}
                      IN [q[i] EXCEPT !.c = Order[CHOOSE m \in seen : \A n \in seen : n <= m]]]
RECURSIVE Squeeze(_)
Squeeze(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Squeeze(Tail(q)) ELSE <<q[1]>> \o Squeeze(Tail(q))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE "/" \o q[1].c \o q[1].d \o Join(Tail(q))
Summary(q) ==
    LET mark == IF q = <<>> \/ (\E x \in Range(q) : x.c = "?") THEN "?" ELSE ""
        real == Squeeze(SelectSeq(q, LAMBDA x : x.c \in Donors))
    IN IF real # <<>> THEN mark \o "case_" \o real[1].c \o real[1].d \o Join(Tail(real))
       ELSE IF \E x \in Range(q) : x.c = "no_RLO" THEN mark \o "no_RLO" ELSE mark

(* rows: [rl1, rl2, rate, a (star 1), b (star 2), m1, m2]; a, b records or co  *)
RowState(r, k) == LET x == IF k = 1 THEN r.a ELSE r.b IN IF x.co THEN COState(IF k = 1 THEN r.m1 ELSE r.m2, FALSE) ELSE StarState(x)
Overflow1(r) == (r.rl1 > 0 \/ r.rate > -10000) /\ r.rl1 >= r.rl2
Overflow2(r) == (r.rl2 > 0 \/ r.rate > -10000) /\ r.rl1 < r.rl2
ErrorFlags == {"logQ_min_limit", "min_timestep_limit", "reach cluster timelimit"}
InitialFlags == {"forced_initial_RLO", "Terminate because of overflowing initial model"}
MTHistory(rows, start, tf1) ==
    LET rlo == SelectSeq(rows, LAMBDA r : Overflow1(r) \/ Overflow2(r))
        c == [i \in DOMAIN rlo |-> IF Overflow1(rlo[i]) THEN [d |-> "1", c |-> Case(rlo[i].rl1, rlo[i].rate, RowState(rlo[i], 1), TRUE)]
                                   ELSE [d |-> "2", c |-> Case(rlo[i].rl2, rlo[i].rate, RowState(rlo[i], 2), TRUE)]]
    IN CASE tf1 \in ErrorFlags -> "None"
         [] tf1 \in InitialFlags -> "initial_RLOF"
         [] \E r \in Range(rows) : r.rl1 > 0 /\ r.rl2 > 0 -> "contact_during_MS"
         [] rlo = <<>> -> "no_RLOF"
         [] ~start /\ (Overflow1(rows[1]) \/ Overflow2(rows[1])) -> "initial_RLOF"
         [] OTHER -> Summary(Shifted(c))

(* why a run ended: the last line that says so, except that running into the  *)
(* time-step limit is overruled by anything said before                       *)
(* lines: [k |-> "end" | "tpagb" | "other", what, ts |-> names the time-step limit] *)
RECURSIVE Reason(_)
Reason(lines) == IF lines = <<>> THEN "reach cluster timelimit"
    ELSE LET x == lines[Len(lines)] rest == SubSeq(lines, 1, Len(lines) - 1) IN
         CASE x.k = "end" /\ ~x.ts -> x.what
           [] x.k = "tpagb" -> "Reached TPAGB"
           [] x.k = "end" /\ x.ts -> LET r == Reason(rest) IN IF r = "reach cluster timelimit" THEN x.what ELSE r
           [] OTHER -> Reason(rest)

StableFlags == {"Primary has depleted central carbon", "Secondary has depleted central carbon", "Primary enters pair-instability regime",
                "Primary got stopped before central carbon depletion", "envelope_mass_limit", "gamma_center_limit", "max_age"}
UnstableFlags == {"overflow from L2 (D_L2) distance for q(=Macc/Mdon)>1, donor is star 1", "Reached maximum mass transfer rate: 1d-1",
                  "Both stars fill their Roche Lobe and at least one of them is off MS"}
Class(tf1, tf2) ==
    CASE tf1 \in InitialFlags \/ tf2 = "initial_RLOF" -> "initial_MT"
      [] tf1 \in ErrorFlags -> "not_converged"
      [] tf2 = "no_RLOF" -> "no_MT"
      [] tf1 \in StableFlags -> IF Has(tf2, "case") /\ Has(tf2, "1") /\ Has(tf2, "2") THEN "stable_reverse_MT" ELSE "stable_MT"
      [] tf1 \in UnstableFlags -> "unstable_MT"
      [] OTHER -> "unknown"

(* --- renaming the stars ------------------------------------------------------- *)
Other(ch) == CASE ch = "1" -> "2" [] ch = "2" -> "1" [] OTHER -> ch
Named == {"RLO1", "RLO2", "oRLO1", "oRLO2", "oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2", "CC1", "CC2"}
Swap(str) == IF str \in Named THEN SubSeq(str, 1, Len(str) - 1) \o Other(SubSeq(str, Len(str), Len(str))) ELSE str
SwapCase(str) == IF Has(str, "case_") THEN SubSeq(str, 1, Len(str) - 1) \o Other(SubSeq(str, Len(str), Len(str))) ELSE str
SwapSeq(q) == [i \in DOMAIN q |-> Swap(q[i])]
SwapCases(q) == [i \in DOMAIN q |-> SwapCase(q[i])]

(* --- replay -------------------------------------------------------------------- *)
Fresh(e) == [n |-> 0]
Clause(s, e) ==
    CASE e.ev = "star" -> IF e.got = StarState(e.x) THEN "ok" ELSE "wrong state of a star"
      [] e.ev = "co" -> IF e.got = COState(e.m, e.ab) THEN "ok" ELSE "wrong kind of compact object"
      [] e.ev = "binary" -> LET w == BinaryNow(e.b) IN IF e.got[1] # w[1] THEN "wrong state of a binary" ELSE IF e.got[2] # w[2] THEN "wrong event of a binary"
                            ELSE IF e.got[3] # w[3] THEN "wrong mass-transfer case" ELSE "ok"
      [] e.ev = "cum" -> IF e.got = Summary(IF e.shift THEN Shifted(e.q) ELSE e.q) THEN "ok" ELSE "wrong summary of mass-transfer phases"
      [] e.ev = "flags" ->
           LET f1 == Reason(e.lines) f2 == MTHistory(e.rows, e.start, f1) n == Len(e.rows) IN
           (CASE e.err # "none" -> "flags of a run cannot be determined"
              [] e.got[1] # f1 -> "wrong reason for the end of a run"
              [] e.got[2] # f2 -> "wrong mass-transfer history of a run"
              [] e.got[3] # RowState(e.rows[n], 1) \/ e.got[4] # RowState(e.rows[n], 2) -> "wrong final state of a star of a run"
              [] e.cls # Class(f1, f2) -> "wrong interpolation class"
              [] OTHER -> "ok")
      [] e.ev = "flip" ->
           (CASE e.post.state # Swap(e.pre.state) \/ e.post.event # Swap(e.pre.event) \/ e.post.case # SwapCase(e.pre.case) -> "renaming the stars leaves the old numbers in the binary"
              [] e.post.states # SwapSeq(e.pre.states) \/ e.post.events # SwapSeq(e.pre.events) \/ e.post.cases # SwapCases(e.pre.cases) -> "renaming the stars leaves the old numbers in the history"
              [] e.post.one # e.pre.two \/ e.post.two # e.pre.one -> "renaming the stars does not exchange their properties"
              [] e.post.rest # e.pre.rest -> "renaming the stars changes the orbit"
              [] e.twice # e.pre -> "renaming the stars twice is not the identity"
              [] OTHER -> "ok")
      [] OTHER -> "unexpected failure"
Apply(s, e) == [n |-> s.n + 1]
=============================================================================
