---------------------------- MODULE PopulationGen ---------------------------
(* Enumerates population runs (split, dumping, outcome of every system).     *)
EXTENDS Population, Json
CONSTANTS MaxN, MaxSize, Dumps, Outs
VARIABLE c
Cfg(n, size) == [n : {n}, size : {size}, dump : Dumps, optimize : BOOLEAN,
                 breakdown : BOOLEAN, mode : IF size = 1 THEN {"serial", "job", "mpi"} ELSE {"job", "mpi"},
                 outs : [1..n -> Outs]]
Init == \E n \in 1..MaxN, size \in 1..MaxSize :
          /\ size <= n
          /\ c \in Cfg(n, size)
          /\ c.optimize \/ (c.dump = 1 /\ c.mode = "serial") \/ (c.dump = 1 /\ c.breakdown)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
