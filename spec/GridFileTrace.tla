---------------------------- MODULE GridFileTrace ----------------------------
EXTENDS GridFile, TLC, Json, IOUtils
VARIABLES l, s, bad, ntr, nf
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Fresh(e) == [c |-> e.c, made |-> <<>>, rows |-> <<>>, cols |-> <<>>]
Bnd(c) == [j \in 1..c.nb |-> [u |-> 1000 + j, p |-> 100 + j, f |-> "overflow"]]
Strip(e) == [j \in 1..Len(e.rows) |-> [u |-> e.rows[j].u, p |-> e.rows[j].p, flag |-> e.rows[j].flag, empty |-> e.rows[j].empty]]
Sound(e) == \A j \in 1..Len(e.rows) : e.rows[j].ok = "ok"
(* names of added columns and their values, slot by slot *)
Val(col, n) == [j \in 1..n |-> col + j]
Names(cols) == {cols[j].name : j \in 1..Len(cols)}
ColsOk(st, e) ==
  /\ \A j \in 1..Len(st.cols) : \E k \in 1..Len(e.cols) : e.cols[k].name = st.cols[j].name /\ e.cols[k].val = Val(st.cols[j].v, Len(st.rows))
  /\ {e.cols[k].name : k \in 1..Len(e.cols)} = Names(st.cols)

Clause(st, e) ==
  LET c == st.c IN
  CASE e.ev = "made" ->
         IF ~Sound(e) THEN "mixed up"
         ELSE IF ~MadeOk(c, e.runs, Strip(e)) THEN "made"
         ELSE IF e.n # Len(e.rows) THEN "length" ELSE "ok"
    [] e.ev = "joined" ->
         IF c.mix /\ Len(e.from) > 1 THEN (IF e.refused THEN "ok" ELSE "inconsistent grids joined")
         ELSE IF e.refused THEN "refused"
         ELSE IF ~Sound(e) THEN "mixed up"
         ELSE IF ~JoinOk(c, [k \in 1..Len(e.from) |-> st.made[e.from[k]]], Strip(e)) THEN "joined"
         ELSE IF e.n # Len(e.rows) THEN "length" ELSE "ok"
    [] e.ev = "op" ->
         IF e.op \in {"add", "over", "add2"} /\ e.refused THEN "refused"
         ELSE IF e.op = "short" /\ ~e.refused THEN "wrong length taken"
         ELSE IF e.op = "deny" /\ e.refused # (e.col \in Names(st.cols)) THEN "overwriting"
         ELSE "ok"
    [] e.ev = "read" ->
         IF ~Sound(e) THEN "mixed up"
         ELSE IF Strip(e) # st.rows THEN "changed"
         ELSE IF ~ColsOk(st, e) THEN "columns"
         ELSE IF e.n # Len(st.rows) \/ e.iter # Len(st.rows) THEN "length"
         ELSE IF ~e.edges THEN "index" ELSE "ok"
    [] OTHER -> "unexpected"
Apply(st, e) ==
  CASE e.ev \in {"made", "joined"} /\ (e.ev = "made" \/ ~e.refused) ->
         [st EXCEPT !.made = Append(@, Strip(e)), !.rows = Strip(e), !.cols = <<>>]
    [] e.ev = "op" /\ e.op \in {"add", "over", "add2", "deny"} /\ ~e.refused ->
         [st EXCEPT !.cols = LET Other(x) == x.name # e.col IN Append(SelectSeq(@, Other), [name |-> e.col, v |-> e.v])]
    [] OTHER -> st
INSTANCE TraceKit
=============================================================================
