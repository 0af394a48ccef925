-------------------------------- MODULE SNGen -------------------------------
(* Enumerates supernovae: which model, which star, in which system.          *)
EXTENDS SN, Json, TLC
VARIABLE c
(* star, helium core, CO core; around every threshold of the models          *)
Triples == { <<900, 700, 600>>, <<450, 400, 0>>, <<300, 0, 0>>, <<2000, 0, 0>>,
             <<6000, 1300, 1369>>, <<8000, 2000, 1370>>, <<2200, 2100, 1400>>, <<9000, 2500, 1430>>, <<9000, 2501, 1431>>,
             <<9000, 3000, 1800>>, <<3100, 3000, 2499>>, <<12000, 4000, 2500>>, <<12000, 4500, 3000>>, <<5100, 5000, 3500>>,
             <<15000, 6500, 5000>>, <<16000, 8000, 6000>>, <<9000, 8500, 6500>>, <<20000, 9000, 7000>>, <<22000, 12000, 9000>>,
             <<30000, 14000, 11000>>, <<16000, 15000, 11001>>, <<40000, 25000, 20000>>,
             <<60000, 36000, 30000>>, <<70000, 44000, 38000>>, <<52000, 50000, 45000>>, <<90000, 56000, 50000>>,
             <<65000, 60000, 55000>>, <<100000, 65000, 60000>>, <<125000, 80000, 70000>>, <<150000, 130000, 115000>> }
Mechs == {"Fryer+12-rapid", "Fryer+12-delayed", "direct", "direct_he_core"}
ECSNs == {"Tauris+15", "Podsiadlowski+04", "None"}
PISNs == {"None", "40", "Marchant+19", "Hendriks+23"}
Comps == {"ms", "cdep", "cdepH", "WD", "NS", "BH"}
(* the remnant of every star under every model; the rest drawn by the harness *)
Remnants == [what : {"remnant"}, tri : Triples, mech : Mechs, ecsn : ECSNs, pisn : PISNs, consH : BOOLEAN, consPPI : BOOLEAN]
Core == { <<900, 700, 600>>, <<8000, 2000, 1400>>, <<12000, 4500, 3000>>, <<22000, 12000, 9000>>, <<40000, 25000, 20000>>, <<125000, 80000, 70000>> }
Norms == {"one", "zero", "one_over_mass", "one_minus_fallback", "NS_one_minus_fallback_BH_one"}
Scenes == [what : {"scene"}, star : {1, 2}, tri : Core, bstate : {"detached", "disrupted", "initially_single_star", "merged"},
           comp : Comps, ecc : BOOLEAN, kick : {"draw", "low", "high", "off"}, norm : Norms, second : BOOLEAN]
Interps == [what : {"interp"}, tri : Core, type : {"WD", "CCSN", "ECSN", "PPISN", "PISN"}, state : {"WD", "NS", "BH", "massless_remnant"},
            mass : {"num", "nan"}, comp : {"ms", "NS"}]
Init == c \in Remnants \cup Scenes \cup Interps
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
