------------------------------- MODULE Cluster -------------------------------
(* A population run on a cluster: set up, submitted as one job array and one  *)
(* merge job per metallicity, checked, rescued, merged.                       *)
(*                                                                            *)
(* cfg = [mets, tasks, n, opts]; state: done[m] = tasks of metallicity m      *)
(* whose result file is in the batch folder; fold[m] = there is such a        *)
(* folder; merged[m] = the population file is there and complete.             *)
(* A job is [kind, met, tasks, dep, size, opts]; dep is the position of the   *)
(* array job it waits for, 0 for none.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
P == INSTANCE Population
SeqSet(q) == P!SeqSet(q)
NoDup(q) == P!NoDup(q)
Share(n, size, r) == P!Share(n, size, r)

Begin(cfg) == [cfg |-> cfg,
                done |-> [m \in SeqSet(cfg.mets) |-> {}],
                fold |-> [m \in SeqSet(cfg.mets) |-> FALSE],
                merged |-> [m \in SeqSet(cfg.mets) |-> FALSE],
                last |-> 9]

Tasks(s) == 0..(s.cfg.tasks - 1)
Systems(s, r) == SeqSet(Share(s.cfg.n, s.cfg.tasks, r))
Missing(s, m) == Tasks(s) \ s.done[m]
Unmerged(s) == SelectSeq(s.cfg.mets, LAMBDA m : ~s.merged[m])

(* ---- the jobs that must be in the queue ---- *)
IsArray(s, j, m, tasks) == /\ j.kind = "array" /\ j.met = m
                           /\ SeqSet(j.tasks) = tasks /\ Len(j.tasks) = Cardinality(tasks)
                           /\ j.dep = 0
IsMerge(s, j, m, dep) == j.kind = "merge" /\ j.met = m /\ j.dep = dep

(* arrays of the metallicities ms (in that order), each followed by its merge *)
PairJobs(s, jobs, ms, tasks(_)) ==
    /\ Len(jobs) = 2 * Len(ms)
    /\ \A k \in 1..Len(ms) : /\ IsArray(s, jobs[2 * k - 1], ms[k], tasks(ms[k]))
                             /\ IsMerge(s, jobs[2 * k], ms[k], 2 * k - 1)
MergeJobs(s, jobs, ms) ==
    /\ Len(jobs) = Len(ms)
    /\ \A k \in 1..Len(ms) : IsMerge(s, jobs[k], ms[k], 0)

(* the options of the user reach every submitted script *)
OptsOk(want, jobs) ==
    \A k \in 1..Len(jobs) : \A key \in DOMAIN want :
        (jobs[k].kind = "array" \/ key \notin {"maxjobs", "exclude", "walltime"})
            => jobs[k].opts[key] = want[key]

SubmitClause(s, e) ==
    IF e.exc # "none" THEN "setting up the run raised"
    ELSE IF ~PairJobs(s, e.jobs, s.cfg.mets, LAMBDA m : Tasks(s))
         THEN "the submitted jobs are not one array of all tasks and one dependent merge per metallicity"
    ELSE IF ~OptsOk(s.cfg.opts, e.jobs) THEN "an option of the user is missing in a submitted script"
    ELSE "ok"

(* a task that ran to its end leaves its share; an interrupted one nothing   *)
(* or its whole share; other tasks' results stay                             *)
TaskClause(s, e) ==
    LET m == e.met
        had == s.done[m]
        now == SeqSet(e.have) IN
    IF e.out = "ok" /\ e.rc # 0 THEN "a task fails although nothing went wrong"
    ELSE IF ~(had \subseteq now) THEN "a task destroys the result of another task"
    ELSE IF e.rc = 0 /\ e.out # "never" /\ e.r \notin now THEN "a finished task leaves no result"
    ELSE IF ~(now \subseteq had \cup {e.r}) THEN "a task writes the result of another task"
    ELSE IF e.r \in now /\ e.readable /\ (SeqSet(e.systems) # Systems(s, e.r) \/ ~NoDup(e.systems))
         THEN "the result of a task is not its share of the systems"
    ELSE IF e.r \in now /\ ~e.readable /\ e.rc = 0 THEN "the result of a finished task cannot be read"
    ELSE "ok"

MergeClause(s, e) ==
    LET all == s.done[e.met] = Tasks(s) IN
    IF e.out = "ok" /\ e.rc # 0 THEN "a merge fails although nothing went wrong"
    ELSE IF e.rc = 0 /\ ~e.file THEN "a finished merge leaves no population file"
    ELSE IF e.rc = 0 /\ all /\ (SeqSet(e.systems) # 0..(s.cfg.n - 1) \/ ~NoDup(e.systems))
         THEN "the merged population does not hold every system exactly once"
    ELSE IF e.rc = 0 /\ all /\ e.folder /\ e.others = 0 THEN "the batch folder is left after a complete merge"
    ELSE "ok"

(* posydon-popsyn check, answering its questions with e.ans *)
CheckClause(s, e) ==
    LET un == Unmerged(s)
        bad == SelectSeq(un, LAMBDA m : Missing(s, m) # {})
        yes(k) == Len(e.ans) >= k /\ e.ans[k] = "yes" IN
    IF e.exc # "none" THEN "checking the run raised"
    ELSE IF un = <<>> THEN
        IF e.rc # 0 THEN "a complete run is not reported as complete"
        ELSE IF e.jobs # <<>> THEN "jobs are submitted for a complete run" ELSE "ok"
    ELSE IF bad = <<>> THEN
        IF e.rc # 2 THEN "a run that needs merging is not reported as such"
        ELSE IF yes(1) /\ ~MergeJobs(s, e.jobs, un)
             THEN "the resubmitted merges are not those of the unmerged metallicities"
        ELSE IF ~yes(1) /\ e.jobs # <<>> THEN "jobs are submitted without consent" ELSE "ok"
    ELSE IF \E i \in 1..Len(un) : ~s.fold[un[i]] THEN
        IF e.rc # 1 THEN "a run with missing batch folders is not reported as such"
        ELSE IF e.jobs # <<>> THEN "jobs are submitted although batch folders are missing" ELSE "ok"
    ELSE IF yes(1) /\ yes(2) THEN
        LET pairs == SelectSeq(e.jobs, LAMBDA j : ~(j.kind = "merge" /\ j.dep = 0)) IN
        IF ~PairJobs(s, pairs, bad, LAMBDA m : Missing(s, m))
        THEN "the rescue jobs are not exactly the missing tasks with their merge"
        ELSE IF \E i \in 1..Len(pairs) : pairs[i].kind = "array" /\ pairs[i].size # s.cfg.tasks
        THEN "a rescue job does not keep the size of the original job array"
        ELSE IF \E i \in 1..Len(e.jobs) : e.jobs[i].kind = "merge" /\ e.jobs[i].dep = 0
                   /\ (s.merged[e.jobs[i].met] \/ Missing(s, e.jobs[i].met) # {})
        THEN "a merge is submitted before its tasks are complete"
        ELSE IF ~OptsOk(e.opts, e.jobs) THEN "an option of the user is missing in a rescue script"
        ELSE "ok"
    ELSE IF e.jobs # <<>> THEN "jobs are submitted without consent"
    ELSE IF e.rc # 2 THEN "an incomplete run is not reported as such"
    ELSE "ok"

Clause(s, e) ==
    CASE e.ev = "submit" -> SubmitClause(s, e)
      [] e.ev = "task" -> TaskClause(s, e)
      [] e.ev = "merge" -> MergeClause(s, e)
      [] e.ev = "check" -> CheckClause(s, e)
      [] e.ev = "end" -> IF \E m \in DOMAIN s.merged : ~s.merged[m]
                         THEN "the run does not complete although every rescue was run" ELSE "ok"
      [] e.ev = "seeds" -> IF ~NoDup(e.ids) THEN "two systems of the run start from the same initial conditions" ELSE "ok"
      [] OTHER -> "unexpected exception escaped the public call"

Apply(s, e) ==
    CASE e.ev = "task" -> [s EXCEPT !.done[e.met] = SeqSet(e.have),
                                    !.fold[e.met] = e.folder]
      [] e.ev = "merge" ->
            [s EXCEPT !.merged[e.met] = e.file /\ SeqSet(e.systems) = 0..(s.cfg.n - 1),
                      !.fold[e.met] = e.folder, !.done[e.met] = SeqSet(e.have)]
      [] e.ev = "check" -> [s EXCEPT !.last = e.rc]
      [] OTHER -> s
Fresh(e) == Begin(e.cfg)
==============================================================================
