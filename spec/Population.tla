----------------------------- MODULE Population -----------------------------
(* Evolving, dumping, combining and merging a population of systems.         *)
(*                                                                           *)
(* A population of cfg.n systems is split over cfg.size ranks (job-array     *)
(* tasks or MPI processes; one "rank" 0 of 1 when serial).  Each rank        *)
(* evolves its share in order, dumps finished systems to batch files,        *)
(* combines its batches into one file; the rank files are merged at the end. *)
(* A system that fails is recorded as failed; nothing else changes.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* ---- splitting ---- *)
ShareLen(n, size, r) == (n \div size) + (IF r < n % size THEN 1 ELSE 0)
ShareStart(n, size, r) ==
    r * (n \div size) + (IF r < n % size THEN r ELSE n % size)
Share(n, size, r) == [k \in 1..ShareLen(n, size, r) |-> ShareStart(n, size, r) + k - 1]

SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Abs(x) == IF x < 0 THEN -x ELSE x
Sel(q, P(_)) == SelectSeq(q, P)
NoDup(q) == Cardinality(SeqSet(q)) = Len(q)

(* ---- what is recorded of a system that was evolved ---- *)
(* rec = [i, id, m1, m2, single, rows, tnow, fail, warn, last, sc]; rows are  *)
(* <<time, state, event, state 1, state 2, mass-transfer case>> of every     *)
(* completed step, first the initial one; last is the same at a failure; sc  *)
(* are values that are kept once per system                                  *)
Rows(rec) == rec.rows \o (IF rec.fail = "none" THEN <<>>
                          ELSE << <<rec.last[1], "ERR", "FAILED", rec.last[4], rec.last[5], rec.last[6]>> >>)

(* ---- state of a validated session ---- *)
(* s.runs : systems evolved in the current run, per rank (sequence index     *)
(*          rank+1); s.ids : every (key, id) drawn in the session            *)
Begin(cfg) == [cfg |-> cfg, seen |-> [r \in 1..cfg.size |-> <<>>], ids |-> {},
               safe |-> {}, done |-> {}]

Key(s, r, k) == <<s.cfg.mode, s.cfg.stream, r, k>>

EvolvedClause(s, e) ==
    LET q == s.seen[e.r + 1]
        share == Share(s.cfg.n, s.cfg.size, e.r)
        k == Len(q) + 1
        others == {x \in s.ids : x.key # Key(s, e.r, k)} IN
    IF k > Len(share) THEN "a rank evolves more systems than its share"
    ELSE IF e.i # share[k] THEN "a rank does not evolve its share of the systems in order"
    ELSE IF \E x \in s.ids : x.key = Key(s, e.r, k) /\ x.id # e.id
         THEN "the same random stream does not reproduce the same initial system"
    ELSE IF \E x \in others : x.id = e.id /\ (x.key[2] # s.cfg.stream \/ x.key[1] = s.cfg.mode)
         THEN "two different systems have the same initial conditions"
    ELSE IF e.fail # e.told THEN "the failure of a system is not the one its evolution had"
    ELSE "ok"

All(s) == Flat(s.seen)
RecOf(s, i) == CHOOSE x \in SeqSet(All(s)) : x.i = i

(* while a rank runs with RAM optimisation: finished systems reach the disk  *)
DiskClause(s, e) ==
    LET mine == s.seen[e.r + 1]
        done == {x.i : x \in SeqSet(mine)}
        on == SeqSet(e.on) IN
    IF ~NoDup(e.on) THEN "a system is on disk twice"
    ELSE IF ~(on \subseteq {x.i : x \in SeqSet(All(s))})
         THEN "a system that was not evolved is on disk"
    ELSE IF s.cfg.optimize /\ Cardinality(done \ on) > s.cfg.dump + 1
         THEN "more finished systems are kept in memory than the dump rate allows"
    ELSE "ok"

(* contents of a saved file against the systems it must hold *)
Content(s, want, e) ==
    LET hist(i) == LET q == Sel(e.history, LAMBDA h : h[1] = i) IN
                   [k \in 1..Len(q) |-> SubSeq(q[k], 2, Len(q[k]))]
        lines == [k \in 1..Len(e.oneline) |-> e.oneline[k][1]]
        bad(P(_)) == \E i \in want : P(i)
        line(i) == CHOOSE o \in SeqSet(e.oneline) : o[1] = i
        w == {RecOf(s, i) : i \in want}
        msum == LET q == Sel(All(s), LAMBDA x : x.i \in want /\ ~x.single) IN
                Sum([k \in 1..Len(q) |-> q[k].m1 + q[k].m2])
        ssum == LET q == Sel(All(s), LAMBDA x : x.i \in want /\ x.single) IN
                Sum([k \in 1..Len(q) |-> q[k].m1])
        tol == 2 * Cardinality(want) + 2
    IN
    IF ~NoDup(lines) THEN "a system is in the saved population twice"
    ELSE IF SeqSet(lines) # want THEN "the saved population does not hold exactly the evolved systems"
    ELSE IF \E h \in SeqSet(e.history) : h[1] \notin want THEN "the saved history has rows of a system that is not in the population"
    ELSE IF bad(LAMBDA i : hist(i) # Rows(RecOf(s, i))) THEN "the saved history of a system is not the one it evolved through"
    ELSE IF \E k \in 1..Len(e.history) : \E j \in 1..k :
              /\ e.history[j][1] = e.history[k][1]
              /\ \E m \in j..k : e.history[m][1] # e.history[k][1]
         THEN "the history rows of a system are not contiguous"
    ELSE IF bad(LAMBDA i : line(i)[2] # (RecOf(s, i).fail # "none")) THEN "a system is not flagged as failed exactly when its evolution failed"
    ELSE IF bad(LAMBDA i : line(i)[3] # RecOf(s, i).warn) THEN "a system is not flagged with a warning exactly when its evolution warned"
    ELSE IF bad(LAMBDA i : line(i)[4] # RecOf(s, i).id) THEN "the saved initial conditions of a system are not the ones it started from"
    ELSE IF bad(LAMBDA i : line(i)[5] # Rows(RecOf(s, i))[Len(Rows(RecOf(s, i)))]) THEN "the saved final state of a system is not its last one"
    ELSE IF bad(LAMBDA i : line(i)[6] # RecOf(s, i).sc) THEN "a saved once-per-system value is not the one the system ended with"
    ELSE IF e.count # Cardinality(want) THEN "the recorded number of systems is not the number of systems in the file"
    ELSE IF Abs(e.massb - msum) > tol THEN "the recorded mass in binaries is not the total initial mass of the binaries"
    ELSE IF Abs(e.masss - ssum) > tol THEN "the recorded mass in single stars is not their total initial mass"
    ELSE IF Abs(e.mass - msum - ssum) > tol THEN "the recorded simulated mass is not the total initial mass"
    ELSE IF e.mets # <<s.cfg.met>> \/ e.linemets # <<s.cfg.met>> THEN "the recorded metallicity is not the one of the population"
    ELSE IF e.inin # s.cfg.n THEN "the recorded population parameters are not those of the run"
    ELSE "ok"

FileClause(s, e) ==
    IF e.exc # "none" THEN "saving or combining the population raised"
    ELSE IF e.what = "rank" THEN
        IF {x.i : x \in SeqSet(s.seen[e.r + 1])} # SeqSet(Share(s.cfg.n, s.cfg.size, e.r))
        THEN "a rank finished without evolving its whole share"
        ELSE Content(s, SeqSet(Share(s.cfg.n, s.cfg.size, e.r)), e)
    ELSE IF e.what = "final" THEN
        IF {x.i : x \in SeqSet(All(s))} # 0..(s.cfg.n - 1)
        THEN "not all requested systems were evolved"
        ELSE IF e.left # <<>> THEN "temporary files are left after saving"
        ELSE Content(s, 0..(s.cfg.n - 1), e)
    ELSE (* an unreadable batch: it stays, everything else is merged *)
        LET want == SeqSet(e.want) IN
        IF e.lost THEN "a batch that could not be combined was deleted"
        ELSE Content(s, want, e)

(* crash sweep: what can be read back after the k-th crash point *)
RecoverClause(s, e) ==
    IF ~(s.safe \subseteq SeqSet(e.present)) THEN "systems that were safely on disk are lost by an interruption"
    ELSE "ok"

Clause(s, e) ==
    CASE e.ev = "run" -> "ok"
      [] e.ev = "evolved" -> EvolvedClause(s, e)
      [] e.ev = "disk" -> DiskClause(s, e)
      [] e.ev = "file" -> FileClause(s, e)
      [] e.ev = "recover" -> RecoverClause(s, e)
      [] e.ev = "failedlist" ->
            IF SeqSet(e.who) # {x.i : x \in {y \in SeqSet(All(s)) : y.fail # "none"}}
            THEN "the population does not report exactly its failed systems" ELSE "ok"
      [] e.ev = "alarm" -> IF e.armed THEN "the time-out alarm is left armed after the population" ELSE "ok"
      [] OTHER -> "unexpected exception escaped the public call"

Apply(s, e) ==
    CASE e.ev = "run" -> [s EXCEPT !.cfg = e.cfg, !.seen = [r \in 1..e.cfg.size |-> <<>>],
                                   !.safe = IF e.cfg.sweep THEN @ ELSE {}]
      [] e.ev = "evolved" ->
            [s EXCEPT !.seen[e.r + 1] = Append(@, e),
                      !.ids = @ \cup {[key |-> Key(s, e.r, Len(s.seen[e.r + 1]) + 1), id |-> e.id]}]
      [] e.ev = "recover" -> [s EXCEPT !.safe = @ \cup SeqSet(e.present)]
      [] OTHER -> s

Fresh(e) == Begin(e.cfg)
=============================================================================
