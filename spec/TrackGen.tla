------------------------------- MODULE TrackGen -------------------------------
EXTENDS Track, Json, TLC
VARIABLE c
Evo == {"MS", "late", "strip"}
Flow == {"none", "one", "two", "both", "heavy"}
Max == {"late", "end", "row", "mid", "mid2", "early", "start"}
Base == [step : {"MS_MS", "CO_HeMS", "CO_HMS_RLO"}, flip : BOOLEAN, n : {2, 3, 4, 6}, evo : Evo, flow : Flow, cls : {"no_MT", "stable_MT", "unstable_MT"},
         t0 : {0, 40}, max : Max, track : BOOLEAN, save : BOOLEAN, stop : {"stop_at_max_time", "stop_at_end"}, interp : BOOLEAN, method : {"NN"}, len0 : {1, 3}, co : {"BH", "NS"}, fin : {0}]
Few == [step : {"MS_MS", "CO_HMS_RLO"}, flip : BOOLEAN, n : {0, 1, 4}, evo : {"MS"}, flow : {"none", "one"}, cls : {"initial_MT"}, t0 : {0, 40}, max : {"late", "mid"}, track : BOOLEAN, save : BOOLEAN,
        stop : {"stop_at_max_time"}, interp : {TRUE}, method : {"NN"}, len0 : {1, 3}, co : {"BH"}, fin : {0}]
Ifs == [step : {"MS_MS", "CO_HeMS", "CO_HMS_RLO"}, flip : BOOLEAN, n : {4, 6}, evo : Evo, flow : Flow, cls : {"no_MT", "stable_MT", "unstable_MT", "initial_MT"}, t0 : {0, 40}, max : Max, track : {FALSE}, save : BOOLEAN,
        stop : {"stop_at_max_time", "stop_at_end"}, interp : BOOLEAN, method : {"IF"}, len0 : {1, 3}, co : {"BH", "NS"}, fin : {-10, 0, 10, 999}]
OK(x) == /\ (x.flow = "heavy" => x.step # "MS_MS") /\ (x.step = "MS_MS" => x.co = "BH")
         /\ (x.evo = "strip" <=> x.step = "CO_HeMS") /\ (x.step # "MS_MS" => x.flow \notin {"two", "both"})
         /\ (x.max \in {"row", "mid2"} => x.n >= 3) /\ (x.stop = "stop_at_end" => x.interp /\ x.max \in {"late", "mid", "end"})
Init == c \in {x \in Base \cup Few \cup Ifs : OK(x)}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
