------------------------------- MODULE MatchMC ------------------------------
(* Closed model: the attempts of one star, whatever each of them answers.    *)
EXTENDS Match, TLC
CONSTANTS Ds, Soft, Hard
VARIABLES kind, j, best, out, log
vars == <<kind, j, best, out, log>>
Answers == [d : Ds, ok : BOOLEAN, err : {FALSE}] \cup {[d |-> 1, ok |-> TRUE, err |-> TRUE]}
Init == kind \in Stars /\ j = 0 /\ best = NoBest /\ out = "going" /\ log = <<>>
Try == /\ out = "going" /\ j < Attempts(kind)
       /\ \E t \in Answers :
            /\ j' = j + 1 /\ log' = Append(log, t) /\ UNCHANGED kind
            /\ IF t.err THEN out' = "error" /\ best' = best
               ELSE /\ best' = Step(best, t, j + 1)
                    /\ out' = IF Final(best, t, Soft) THEN "chosen" ELSE "going"
Judge == out = "going" /\ j = Attempts(kind) /\ out' = (IF best.j = 0 \/ best.d > Hard THEN "fail" ELSE "chosen") /\ UNCHANGED <<kind, j, best, log>>
Next == Try \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a match that is accepted is a converged attempt within tolerance, and no  *)
(* converged attempt made was better                                         *)
Accepted == out = "chosen" => /\ best.j \in 1..j /\ best.d <= Hard /\ log[best.j].ok
                              /\ \A i \in 1..j : log[i].ok => Dist(log[i]) >= best.d
Rejected == out = "fail" => \A i \in 1..j : ~log[i].ok \/ Dist(log[i]) > Hard
OwnLibrary == kind = "HMS" /\ best.j > 0 => Library(kind, best.j)
OtherIsLast == best.j > 0 /\ Library(kind, best.j) # (kind \in HRich) => j = 4 /\ \A i \in 1..3 : ~(log[i].ok /\ Dist(log[i]) <= Soft)
Enough == out = "going" => \A i \in 1..j : ~(log[i].ok /\ Dist(log[i]) <= Soft)
Whole == LET pad == [i \in 1..4 |-> IF i <= j THEN log[i] ELSE [d |-> 1, ok |-> TRUE, err |-> FALSE]] IN
         out # "going" => Result(pad, kind, Soft, Hard) = [res |-> out, j |-> IF out = "chosen" THEN best.j ELSE 0]
Improves == [][best'.d <= best.d]_vars
Ends == <>(out # "going")
(* roles: exactly one leads; a star never follows a compact object's lead    *)
Kinds == Stars \cup Compact \cup {"gone"}
Roles == \A a, b \in Kinds : Refused(a, b) = "" =>
           /\ (a \in Compact \cup {"gone"}) /\ b \in Stars => Leader(a, b) = 1 /\ Leader(b, a) = 2
           /\ a \in HeRich /\ b \in HRich => Leader(a, b) = 1 /\ Leader(b, a) = 2
           /\ Alone(a, b) <=> Alone(b, a)
=============================================================================
