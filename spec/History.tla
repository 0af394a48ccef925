------------------------------- MODULE History ------------------------------
(* The evolutionary record of a binary: one row per recorded state, kept as  *)
(* parallel columns for the binary, both stars and every hook column.        *)
(*                                                                           *)
(* s.rows  : sequence of [k, cur]; k is the generation token of the values   *)
(* s.names : step_names column, s.times : which rows carry a step duration   *)
(* s.star  : column kept by a user hook on the stars (one token per row)     *)
(* s.now   : [k, cur] of the current attribute values                        *)
(* s.hooked: hook columns exist (they appear when evolution first starts)    *)
(* Operations: evolve (its steps given as outcomes), restore(i), reset,      *)
(* observations: hist (all columns), df (exported table), oneline.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Redirects == {"redirect_from_ZAMS", "redirect_from_CO_HMS_RLO",
              "redirect_from_CO_HeMS", "redirect_from_CO_HeMS_RLO"}

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)

Start(cfg, cur) == [cfg |-> cfg, rows |-> <<[k |-> 0, cur |-> cur]>>,
                    names |-> <<>>, times |-> <<>>, star |-> <<>>,
                    now |-> [k |-> 0, cur |-> cur], hooked |-> FALSE,
                    aligned |-> TRUE]

(* first evolution: hooks create their columns *)
Hook(s) == IF s.hooked \/ ~s.cfg.hooks THEN s
           ELSE [s EXCEPT !.hooked = TRUE, !.names = <<"initial_cond">>,
                          !.times = <<"time">>, !.star = <<0>>]

(* one step: c = [step, post, k, rows, exc]; the step itself may have        *)
(* recorded c.rows intermediate rows                                          *)
Silent(s, c) == ~s.cfg.verbose /\ c.post[4] \in Redirects

Step(s, c) ==
    LET new == [k |-> c.k, cur |-> c.post]
        inter == Rep(new, c.rows)
    IN IF c.exc # "none" THEN
            [s EXCEPT !.rows = @ \o inter, !.now = new,
                      !.aligned = @ /\ c.rows = 0]
       ELSE IF Silent(s, c) THEN
            [s EXCEPT !.rows = @ \o inter, !.now = new]
       ELSE LET t == [s EXCEPT !.rows = @ \o inter \o <<new>>, !.now = new] IN
            IF ~s.hooked THEN t
            ELSE [t EXCEPT !.names = @ \o <<c.step>> \o Rep("None", c.rows),
                           !.times = @ \o <<"time">> \o Rep("None", c.rows),
                           !.star = @ \o Rep(c.k, c.rows + 1)]

RECURSIVE Steps(_, _)
Steps(s, cs) == IF cs = <<>> THEN s ELSE Steps(Step(s, Head(cs)), Tail(cs))

Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
Restore(s, i) ==     \* i counts from 0
    [s EXCEPT !.rows = SubSeq(@, 1, i + 1), !.now = s.rows[i + 1],
              !.names = Cut(@, i + 1), !.times = Cut(@, i + 1),
              !.star = Cut(@, i + 1)]

Col(s, i) == [j \in 1..Len(s.rows) |-> s.rows[j].cur[i]]
Ks(s) == [j \in 1..Len(s.rows) |-> s.rows[j].k]

(* ---- clauses ---- *)
HistClause(s, e) ==
    IF Len(e.lengths) # 1 THEN "history columns have different lengths"
    ELSE IF e.lengths[1] # Len(s.rows) THEN "the number of recorded rows does not match the steps taken"
    ELSE IF e.ks # <<Ks(s)>> THEN "a recorded row does not hold the values the binary had when it was recorded"
    ELSE IF <<e.s1, e.s2, e.b, e.e>> # <<Col(s, 1), Col(s, 2), Col(s, 3), Col(s, 4)>>
         THEN "a recorded row does not hold the total state the binary had when it was recorded"
    ELSE IF e.nowk # <<s.now.k>> THEN "current values are not the expected ones"
    ELSE IF e.nowcur # s.now.cur THEN "current total state is not the expected one"
    ELSE IF s.aligned /\ s.hooked /\ e.names # s.names THEN "the step-name column does not name the step of each row"
    ELSE IF s.aligned /\ s.hooked /\ e.times # s.times THEN "the step-time column does not match the rows"
    ELSE IF s.aligned /\ s.hooked /\ e.star # s.star THEN "a star hook column does not match the rows"
    ELSE "ok"

DfClause(s, e) ==
    IF e.n # Len(s.rows) THEN "the exported table has a different number of rows than the history"
    ELSE IF e.index # <<s.cfg.index>> THEN "the exported table is not indexed by the binary"
    ELSE IF e.ks # <<Ks(s)>> THEN "an exported value differs from the recorded one"
    ELSE IF <<e.s1, e.s2, e.b, e.e>> # <<Col(s, 1), Col(s, 2), Col(s, 3), Col(s, 4)>>
         THEN "an exported total state differs from the recorded one"
    ELSE IF s.aligned /\ s.hooked /\ e.names # s.names THEN "the exported step names differ from the recorded ones"
    ELSE "ok"

LineClause(s, e) ==
    LET f == s.rows[1]  g == s.rows[Len(s.rows)] IN
    IF e.ki # <<f.k>> \/ e.curi # f.cur THEN "the initial columns of the one-line table are not the first row"
    ELSE IF e.kf # <<g.k>> \/ e.curf # g.cur THEN "the final columns of the one-line table are not the last row"
    ELSE "ok"

(* a binary rebuilt from an exported table: e.kind "df"/"hdf" (all rows) or   *)
(* "line" (the first row); only the exported columns are observed            *)
Rebuilt(s, e) ==
    LET rows == IF e.kind = "line" THEN <<s.rows[1]>> ELSE s.rows
        hook == s.hooked /\ s.aligned /\ e.names # <<>>
    IN [s EXCEPT !.rows = rows, !.now = rows[Len(rows)], !.hooked = hook,
                 !.names = IF hook THEN Cut(@, Len(rows)) ELSE <<>>,
                 !.times = IF hook THEN Cut(@, Len(rows)) ELSE <<>>,
                 !.star = <<>>, !.aligned = TRUE, !.cfg.index = e.want]
PartClause(s, e) ==
    IF e.lengths # <<Len(s.rows)>> THEN "a rebuilt history has columns of the wrong length"
    ELSE IF e.index # s.cfg.index THEN "the rebuilt binary has the wrong index"
    ELSE IF e.ks # <<Ks(s)>> THEN "a value of the rebuilt binary differs from the exported one"
    ELSE IF <<e.s1, e.s2, e.b, e.e>> # <<Col(s, 1), Col(s, 2), Col(s, 3), Col(s, 4)>>
         THEN "a total state of the rebuilt binary differs from the exported one"
    ELSE IF e.nowk # <<s.now.k>> THEN "the current values of the rebuilt binary are not those of its last row"
    ELSE IF e.failed /\ e.nowcur[4] # "FAILED" THEN "a rebuilt failed binary is not marked as failed"
    ELSE IF SubSeq(e.nowcur, 1, 3) # SubSeq(s.now.cur, 1, 3) \/ (~e.failed /\ e.nowcur[4] # s.now.cur[4])
         THEN "the current total state of the rebuilt binary is not that of its last row"
    ELSE IF s.hooked /\ e.names # s.names THEN "the step names of the rebuilt binary differ"
    ELSE IF e.dev > 1000 THEN "separation and orbital period of the rebuilt binary are inconsistent"
    ELSE IF e.scalars # <<"ok">> THEN "a scalar of the rebuilt binary differs from the exported one"
    ELSE "ok"

Clause(s, e) ==
    CASE e.ev = "evolve" -> "ok"
      [] e.ev = "rebuilt" -> PartClause(Rebuilt(s, e), e)
      [] e.ev = "part" -> PartClause(s, e)
      [] e.ev = "restore" -> IF e.exc # "none" THEN "restoring to a recorded row raised" ELSE "ok"
      [] e.ev = "hist" -> HistClause(s, e)
      [] e.ev = "df" -> DfClause(s, e)
      [] e.ev = "oneline" -> LineClause(s, e)
      [] e.ev = "replayed" -> IF e.same THEN "ok" ELSE "evolving again after a restore does not reproduce the same record"
      [] OTHER -> "unexpected exception escaped the public call"

Apply(s, e) ==
    CASE e.ev = "evolve" -> Steps(Hook(s), e.calls)
      [] e.ev = "restore" -> [Restore(s, e.i) EXCEPT !.aligned = TRUE]
      [] e.ev = "rebuilt" -> Rebuilt(s, e)
      [] OTHER -> s

Fresh(e) == Start(e.cfg, e.cur)
=============================================================================
