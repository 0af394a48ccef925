------------------------------ MODULE PopFile -------------------------------
(* A population file: systems in some order, each with an index, one line,   *)
(* a history, and (once computed) a formation channel; plus the simulated    *)
(* mass and number of systems per metallicity.  Selections, exports,         *)
(* formation channels and transient populations are defined on it system by  *)
(* system; how the tables are read in chunks must not be visible.            *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SelSeq(_, _), Join(_), Concat(_), SetMax(_)
SelSeq(q, S) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in S THEN <<Head(q)>> \o SelSeq(Tail(q), S) ELSE SelSeq(Tail(q), S)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "_" \o Join(Tail(q))
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
SetMax(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min(a, b) == IF a < b THEN a ELSE b
NoDup(q) == Cardinality(Range(q)) = Len(q)

(* ---- contents ------------------------------------------------------------ *)
(* file = [ex, sys |-> <<[ix, id], ...>>, chan, mpm]; s.sys[id] = the system  *)
Ixs(f) == {x.ix : x \in Range(f.sys)}
IdOf(f, ix) == (CHOOSE x \in Range(f.sys) : x.ix = ix).id
Rows(s, x) == [r \in 1..Len(s.sys[x.id].ev) |-> [ix |-> x.ix, id |-> x.id, row |-> r]]
History(s, f) == Concat([i \in 1..Len(f.sys) |-> Rows(s, f.sys[i])])
Oneline(s, f) == [i \in 1..Len(f.sys) |-> [ix |-> f.sys[i].ix, id |-> f.sys[i].id, row |-> 0]]
Table(s, f, tab) == IF tab = "history" THEN History(s, f) ELSE Oneline(s, f)

(* ---- selections ------------------------------------------------------------ *)
Kept(t, i, k) == CASE k.k = "slice" -> t[i].ix >= k.a /\ (k.b = -1 \/ t[i].ix < k.b)
                   [] k.k \in {"int", "list", "array"} -> t[i].ix \in Range(k.ix)
                   [] k.k \in {"mask", "dfmask"} -> k.m[i]
                   [] k.k \in {"col", "cols"} -> TRUE
                   [] k.k = "head" -> i <= k.n
                   [] k.k = "tail" -> i > Len(t) - k.n
RECURSIVE Pick(_, _, _)
Pick(t, i, k) == IF i > Len(t) THEN <<>> ELSE (IF Kept(t, i, k) THEN <<t[i]>> ELSE <<>>) \o Pick(t, i + 1, k)
GetClause(s, e) ==
    IF e.key.k = "badcol" THEN (IF e.err # "ValueError" THEN "a column that does not exist was selected" ELSE "ok")
    ELSE IF e.err # "none" THEN "a selection failed: " \o e.err
    ELSE IF e.rows # Pick(Table(s, s.f[e.file], e.tab), 1, e.key) THEN "a selection returned other rows" ELSE "ok"

(* ---- formation channels ---------------------------------------------------- *)
Hidden == {"redirect_from_ZAMS", "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS_RLO", "redirect_from_CO_HeMS", "CO_contact"}
ClsName(c) == CASE c = "stable_MT" -> "oRLO1" [] c = "stable_reverse_MT" -> "oRLO1-reverse" [] OTHER -> ""
Contact(c) == CASE c = "oRLO1" -> "oRLO1-contact" [] c = "oRLO1-reverse" -> "oRLO1-contact-reverse" [] OTHER -> c
Seen(y) == LET happened == SelSeq(y.ev, {y.ev[i] : i \in {j \in 1..Len(y.ev) : y.ev[j] # ""}}) IN
           IF happened = <<>> \/ ClsName(y.cls) = "" THEN happened
           ELSE <<happened[1], ClsName(y.cls)>> \o Tail(happened)
Visible(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o SelSeq(Tail(q), Range(q) \ Hidden)
WithMT(y, q, mode) == IF mode = "mt" /\ y.mt = "Stable contact phase" THEN [i \in 1..Len(q) |-> Contact(q[i])] ELSE q
(* channels are kept to 100 characters                                        *)
Cut(x) == IF Len(x) > 100 THEN SubSeq(x, 1, 100) ELSE x
Channel(y, mode) == Cut(Join(WithMT(y, Visible(Seen(y)), mode)))
Debug(y) == Cut(Join(Seen(y)))

(* ---- what the file must look like ------------------------------------------- *)
MpmOf(q) == Range(q)
Order(q) == [i \in 1..Len(q) |-> q[i].ix]
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))
RawClause(s, e) ==
    LET f == s.f[e.file] IN
    IF e.ex # f.ex THEN (IF e.ex THEN "a refused operation created a file" ELSE "a population file disappeared")
    ELSE IF ~ f.ex THEN "ok"
    ELSE IF Range(e.one) # {[ix |-> x.ix, id |-> x.id, row |-> 0] : x \in Range(f.sys)} \/ Len(e.one) # Len(f.sys)
         THEN "the one-line table does not hold exactly the expected systems"
    ELSE IF \E x \in Range(f.sys) : SelSeq(e.hist, {y \in Range(e.hist) : y.ix = x.ix}) # Rows(s, x)
         THEN "a history is not the complete history of its system"
    ELSE IF Len(e.hist) # Len(History(s, f)) THEN "the history table has other rows"
    ELSE IF Dedup(Order(e.hist)) # Order(e.one) THEN "the tables of a file are not in the same order"
    ELSE IF {y.ix : y \in Range(e.len)} # Ixs(f) \/ Len(e.len) # Len(f.sys) THEN "wrong systems in the list of history lengths"
    ELSE IF \E y \in Range(e.len) : y.n # Len(s.sys[IdOf(f, y.ix)].ev) THEN "wrong history length"
    ELSE IF Order(e.len) # Order(e.one) THEN "the history lengths are not in the order of the systems"
    ELSE IF f.chan = "no" /\ e.chan # <<>> THEN "formation channels from nowhere"
    ELSE IF f.chan # "no" /\ ({y.ix : y \in Range(e.chan)} # Ixs(f) \/ Len(e.chan) # Len(f.sys))
         THEN "not exactly one formation channel per system"
    ELSE IF f.chan # "no" /\ \E y \in Range(e.chan) : y.c # Channel(s.sys[IdOf(f, y.ix)], f.chan) THEN "a wrong formation channel"
    ELSE IF f.chan # "no" /\ \E y \in Range(e.chan) : y.d # Debug(s.sys[IdOf(f, y.ix)]) THEN "a wrong detailed formation channel"
    ELSE IF f.chan # "no" /\ Order(e.chan) # Order(e.one) THEN "the formation channels are not in the order of the systems"
    ELSE IF MpmOf(e.mpm) # f.mpm THEN "wrong simulated mass or number of systems per metallicity"
    ELSE IF e.mem # <<>> /\ MpmOf(e.mem) # f.mpm THEN "the open population changed"
    ELSE IF f.met /\ \E y \in Range(e.met) : y.m # s.sys[IdOf(f, y.ix)].met THEN "wrong metallicity of a system"
    ELSE IF ~ e.ini THEN "wrong simulation parameters"
    ELSE "ok"

(* ---- exports ------------------------------------------------------------------ *)
MetsIn(m) == {x.met : x \in m}
CountMet(s, ids, met) == Cardinality({i \in 1..Len(ids) : s.sys[ids[i]].met = met})
SrcMpm(s, f, ids) == {[met |-> x.met, mass |-> x.mass, n |-> CountMet(s, ids, x.met)] : x \in f.mpm}
Of(m, met) == IF met \in MetsIn(m) THEN CHOOSE x \in m : x.met = met ELSE [met |-> met, mass |-> 0, n |-> 0]
Add(m1, m2) == {[met |-> t, mass |-> Of(m1, t).mass + Of(m2, t).mass, n |-> Of(m1, t).n + Of(m2, t).n] : t \in MetsIn(m1) \cup MetsIn(m2)}
Refused(s, e) == \/ s.f[e.dst].ex /\ e.mode = "new"
                 \/ e.mode = "both"
                 \/ ~ (Range(e.sel) \subseteq Ixs(s.f[e.src]))
Exported(s, e) ==
    LET f == s.f[e.src]  d == s.f[e.dst]
        base == IF e.mode = "append" /\ d.ex THEN d ELSE [d EXCEPT !.sys = <<>>, !.mpm = {}]
        from == SetMax({x.ix : x \in Range(base.sys)}) + 1
        new == [i \in 1..Len(e.sel) |-> [ix |-> from + i - 1, id |-> IdOf(f, e.sel[i])]]
    IN [ex |-> TRUE, sys |-> base.sys \o new, chan |-> f.chan, met |-> TRUE,
        mpm |-> Add(base.mpm, SrcMpm(s, f, [i \in 1..Len(e.sel) |-> IdOf(f, e.sel[i])]))]
ExportClause(s, e) ==
    IF Refused(s, e) THEN (IF e.err = "none" THEN "an impossible export was not refused" ELSE "ok")
    ELSE IF e.err # "none" THEN "an export failed: " \o e.err ELSE "ok"

(* ---- transient populations -------------------------------------------------- *)
Given(call) == {[ix |-> x.ix, id |-> x.id] : x \in Range(call.o)}
CallOk(s, f, call) ==
    IF ~ (Given(call) \subseteq Range(f.sys)) THEN "the selection saw systems that do not exist"
    ELSE IF {[ix |-> x.ix, id |-> x.id] : x \in Range(call.h)} # Given(call) THEN "the selection saw histories of other systems"
    ELSE IF \E x \in Given(call) : SelSeq(call.h, {y \in Range(call.h) : y.ix = x.ix}) # Rows(s, x) THEN "the selection saw an incomplete history"
    ELSE IF f.chan = "no" /\ call.c # <<>> THEN "the selection saw formation channels from nowhere"
    ELSE IF f.chan # "no" /\ {[ix |-> y.ix, c |-> y.c] : y \in Range(call.c)}
                             # {[ix |-> x.ix, c |-> Channel(s.sys[x.id], f.chan)] : x \in Given(call)}
         THEN "the selection saw formation channels of other systems"
    ELSE "ok"
TrRows(s, f) == UNION {{[ix |-> x.ix, id |-> x.id, row |-> j] : j \in 1..Len(s.sys[x.id].tr)} : x \in Range(f.sys)}
TransClause(s, e) ==
    LET f == s.f[e.file]
        calls == [i \in 1..Len(e.calls) |-> CallOk(s, f, e.calls[i])]
        bad == {i \in 1..Len(e.calls) : calls[i] # "ok"}
        all == Concat([i \in 1..Len(e.calls) |-> [j \in 1..Len(e.calls[i].o) |-> e.calls[i].o[j].ix]])
    IN IF e.err # "none" THEN "a transient population failed: " \o e.err
       ELSE IF bad # {} THEN calls[CHOOSE i \in bad : TRUE]
       ELSE IF Range(all) # Ixs(f) \/ Len(all) # Len(f.sys) THEN "the selection did not see every system exactly once"
       ELSE IF e.ret # (TrRows(s, f) # {}) THEN "an empty transient population was not reported"
       ELSE IF Range(e.rows) # TrRows(s, f) \/ Len(e.rows) # Cardinality(TrRows(s, f)) THEN "the transient population has other events"
       ELSE "ok"

(* ---- transitions --------------------------------------------------------------- *)
Absent == [ex |-> FALSE, sys |-> <<>>, chan |-> "no", mpm |-> {}, met |-> FALSE]
File(x) == [ex |-> TRUE, sys |-> x.sys, chan |-> "no", mpm |-> Range(x.mpm), met |-> x.met]
Fresh(e) == [none |-> FALSE, sys |-> e.sys, f |-> [A |-> File(e.A), X |-> Absent]]
Clause(s, e) ==
    CASE e.ev = "get" -> GetClause(s, e)
      [] e.ev = "raw" -> RawClause(s, e)
      [] e.ev = "export" -> ExportClause(s, e)
      [] e.ev = "channels" -> IF e.err # "none" THEN "formation channels failed: " \o e.err ELSE "ok"
      [] e.ev = "transient" -> TransClause(s, e)
      [] OTHER -> "the population raised " \o e.ev
Apply(s, e) ==
    CASE e.ev = "export" /\ e.err = "none" -> [s EXCEPT !.f[e.dst] = Exported(s, e)]
      [] e.ev = "channels" -> [s EXCEPT !.f[e.file].chan = e.mode]
      [] e.ev = "raw" /\ e.ex -> [s EXCEPT !.f[e.file].sys = [i \in 1..Len(e.one) |-> [ix |-> e.one[i].ix, id |-> e.one[i].id]]]
      [] OTHER -> s
=============================================================================
