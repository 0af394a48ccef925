------------------------------ MODULE ClusterMC ------------------------------
(* Closed model of a cluster run: the scheduler may lose, kill or refuse any  *)
(* task or merge (at most MaxFail times in all); the user checks the run      *)
(* until it is complete, answering yes.  The jobs a check submits are those   *)
(* the contract in Cluster.tla (CheckClause) demands.                         *)
EXTENDS Cluster
CONSTANTS Mets, MaxTasks, MaxFail
VARIABLES s, queue, fails, user
vars == <<s, queue, fails, user>>

MetSeq == CHOOSE q \in [1..Cardinality(Mets) -> Mets] : SeqSet(q) = Mets
Job(kind, m, ts) == [kind |-> kind, met |-> m, tasks |-> ts, run |-> {}, failed |-> FALSE]

Init == /\ \E k \in 1..MaxTasks : s = Begin([mets |-> MetSeq, tasks |-> k, n |-> k + 1, opts |-> <<>>])
        /\ queue = {} /\ fails = 0 /\ user = "new"

(* one array and its merge: the merge starts only after all tasks succeeded *)
Pair(m, ts) == Job("pair", m, ts)
Submit == /\ user \in {"new", "again"}
          /\ queue' = {Pair(m, Tasks(s)) : m \in Mets}
          /\ user' = "wait" /\ UNCHANGED <<s, fails>>

RunTask(j) ==
    /\ \E r \in j.tasks \ j.run :
        LET j2 == [j EXCEPT !.run = @ \cup {r}] IN
        \/ /\ s' = [s EXCEPT !.done[j.met] = @ \cup {r}, !.fold[j.met] = TRUE]
           /\ queue' = (queue \ {j}) \cup {j2} /\ UNCHANGED <<fails, user>>
        \/ /\ fails < MaxFail /\ fails' = fails + 1
           /\ \E f \in {TRUE, s.fold[j.met]} : s' = [s EXCEPT !.fold[j.met] = f]
           /\ queue' = (queue \ {j}) \cup {[j2 EXCEPT !.failed = TRUE]} /\ UNCHANGED user
RunMerge(j) ==
    /\ j.run = j.tasks
    /\ queue' = queue \ {j}
    /\ \/ j.failed /\ UNCHANGED <<s, fails>>
       \/ /\ ~j.failed
          /\ \/ /\ s' = [s EXCEPT !.merged[j.met] = s.done[j.met] = Tasks(s),
                                   !.done[j.met] = {}, !.fold[j.met] = FALSE]
                /\ UNCHANGED fails
             \/ fails < MaxFail /\ fails' = fails + 1 /\ UNCHANGED s
    /\ UNCHANGED user

(* check when the queue is empty *)
Check ==
    /\ user = "wait" /\ queue = {}
    /\ LET un == {m \in Mets : ~s.merged[m]}
           incomplete == {m \in un : Missing(s, m) # {}} IN
       IF un = {} THEN user' = "done" /\ UNCHANGED <<s, queue, fails>>
       ELSE IF incomplete = {} THEN
            /\ queue' = {Job("merge", m, {}) : m \in un} /\ UNCHANGED <<s, fails, user>>
       ELSE IF \E m \in un : ~s.fold[m] THEN user' = "again" /\ UNCHANGED <<s, queue, fails>>
       ELSE queue' = {Pair(m, Missing(s, m)) : m \in incomplete} /\ UNCHANGED <<s, fails, user>>

Next == Submit \/ Check \/ \E j \in queue : RunTask(j) \/ RunMerge(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a population file is only ever made of all tasks *)
NoPartialMerge == \A j \in queue : (j.run = j.tasks /\ ~j.failed) => s.done[j.met] = Tasks(s)
RescueExact == user = "wait" => \A j \in queue :
                  j.kind = "pair" => (j.tasks \ j.run) \cap s.done[j.met] = {} \/ s.merged[j.met] \/ j.tasks = Tasks(s)
DoneMeansMerged == user = "done" => \A m \in Mets : s.merged[m]
Completes == <>(user = "done")
==============================================================================
