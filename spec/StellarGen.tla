----------------------------- MODULE StellarGen -----------------------------
EXTENDS Stellar, Json, TLC
VARIABLE c
S == [what : {"star"}, hs : {Nan, 0, 50, 100, 101, 7000}, h : {0, 50, 100, 101, 7000}, he : {100, 101, 9000}, c : {100, 101, 3000},
      l : {<<2000, 500, 2000>>, <<477, 2000, 2000>>, <<478, 478, 2000>>, <<-10000, -9999, -9900>>, <<-9999, -10000, -9900>>, <<-99000, -99000, -50000>>, <<3000, 2000, 5000>>, <<500, 477, 2000>>}]
CO == [what : {"co"}, m : {Nan, -1000, 0, 1, 500, 1099, 1100, 1101, 1460, 1461, 2500, 2501, 30000}, ab : {0, 1, 2, 3, 4}]
States == {"H-rich_Core_H_burning", "H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted", "H-rich_Core_C_depleted", "H-rich_non_burning",
           "accreted_He_Core_H_burning", "stripped_He_Core_He_burning", "stripped_He_Core_C_depleted", "WD", "BH"}
Gam == {<<None, None>>, <<99, 100>>, <<100, 99>>}
B == [what : {"binary"}, cls : {"not_converged", "initial_MT", "stable_MT", "unstable_MT", "None"}, rl1 : {None, -500, 0, 1, 200}, rl2 : {None, -500, 0, 1, 200},
      rate : {None, -10000, -9999}, st1 : States, st2 : States, g : Gam]
BB == {b \in B : (b.g = <<None, None>> \/ (b.rate = -9999 /\ b.cls \in {"stable_MT", "unstable_MT"} /\ b.rl1 # None)) /\ (b.cls \in {"stable_MT", "unstable_MT"} \/ (b.st1 = b.st2 /\ b.rl1 = 1))}
Ph == ({"1", "2"} \X {"A", "B", "BA", "BB", "nonburning", "?"}) \cup {<<"1", "no_RLO">>}
Q == [what : {"cum"}, q : UNION {[1..n -> Ph] : n \in 0..3}, shift : BOOLEAN]
     \cup {[what |-> "cum", q |-> <<a, b, a2, b2, x>>, shift |-> TRUE] : a \in Ph, b \in Ph, a2 \in Ph, b2 \in Ph, x \in {<<"1", "A">>, <<"2", "B">>}}
Rows == [rl1 : {-300, 0, 100}, rl2 : {-400, 0, 50}, rate : {-99000, -9999}, k : {"MS+MS", "HeB+MS", "HeD+MS", "sHe+MS", "sHeD+MS", "acc+MS", "MS+HeB", "nb+MS"}]
Sane == {r \in Rows : r.rl1 = 0 => r.rate = -9999}
Few == {r \in Sane : (r.rl1 = 100) \/ (r.rl2 = 50 /\ r.rl1 = -300) \/ (r.rl1 = -300 /\ r.rl2 = -400 /\ r.k \in {"MS+MS", "MS+HeB"})}
Logs == 1..14
F == [what : {"flags"}, rows : {<<r>> : r \in Sane} \cup {<<r, q>> : r \in {x \in Sane : x.rate < -9999}, q \in Sane}, start : BOOLEAN, log : {1, 2}, co : BOOLEAN]
     \cup [what : {"flags"}, rows : {<<r, q, p, o>> : r \in {x \in Sane : x.rate < -9999 /\ x.rl1 = -300 /\ x.rl2 = -400 /\ x.k = "MS+MS"}, q \in Few, p \in Few, o \in {x \in Few : x.rate = -9999 /\ x.k \in {"MS+MS", "sHe+MS", "MS+HeB"}}}, start : {FALSE}, log : {2}, co : BOOLEAN]
     \cup [what : {"flags"}, rows : {<<r, q>> : r \in {x \in Few : x.k = "MS+MS"}, q \in Few}, start : {FALSE}, log : Logs, co : {FALSE}]
Ev == {"oRLO1", "oRLO2", "oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2", "CC1", "CC2", "None", "ZAMS"}
X == [what : {"flip"}, state : {"RLO1", "RLO2", "detached", "contact"}, event : Ev, case : {"case_A1", "case_BB2", "None"}, hist : {<<"ZAMS">>, <<"oRLO1", "CC2">>, <<"oDoubleCE2", "None", "oCE1">>}]
Init == c \in S \cup CO \cup BB \cup Q \cup F \cup X
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
