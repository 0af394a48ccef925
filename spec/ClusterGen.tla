------------------------------ MODULE ClusterGen -----------------------------
(* Enumerates what goes wrong in a cluster run: per round and metallicity the *)
(* outcome of every task, and the outcome of the merge.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxTasks
VARIABLE c
Outs == {"ok", "never", "error", "kill"}
Failed(f) == Cardinality({k \in DOMAIN f : f[k] # "ok"})
Init == \E k \in 1..MaxTasks, nm \in 1..2 :
          \E first \in [1..(nm * k) -> Outs], second \in [1..nm -> Outs],
             merges \in [1..nm -> {"ok", "kill", "error"}], late \in {1, 2} :
            /\ Failed(first) <= 3 /\ Failed(first) + Failed(merges) >= 1
            /\ c = [tasks |-> k, nmets |-> nm, first |-> first, second |-> second,
                    merges |-> merges, late |-> late]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
==============================================================================
