-------------------------------- MODULE Rates --------------------------------
(* From a transient population to rates: model weights, efficiencies,        *)
(* cosmic weights of a star-formation history, rate densities, observable    *)
(* populations -- all kept in one file next to each other.                   *)
(*                                                                           *)
(* State: evs    the events of the transient, in file order                  *)
(*               [id, ix, j, delay (Myr), met (1/10000 Zsun), ch]            *)
(*        all    the events the selection can produce                        *)
(*        mw     model weights in the file: [id, par]                        *)
(*        rates  cosmic weights in the file: [sfh, model, par, dens]         *)
(*        obs    names of observable populations                             *)
(*        mets   metallicities that were simulated; age  of the universe/kyr *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Nonneg(x) == IF x > 0 THEN x ELSE 0

Fresh(e) == [evs |-> e.evs, all |-> e.evs, mw |-> {}, rates |-> {}, obs |-> {}, mets |-> Range(e.mets), age |-> e.age, ok |-> TRUE]

Mw(s, id) == {x \in s.mw : x.id = id}
Rt(s, h) == {x \in s.rates : x.sfh = h}
First(s) == SelectSeq(s.all, LAMBDA e : e.j = 1)

(* --- model weights ------------------------------------------------------- *)
RowsInOrder(s, rows) == Len(rows) = Len(s.evs) /\ \A k \in DOMAIN rows : rows[k].ix = s.evs[k].ix
WeightsClause(s, e) ==
    CASE e.err # "none" -> "model weights cannot be computed"
      [] ~RowsInOrder(s, e.rows) -> "not one weight per event, in the order of the events"
      [] \E k \in DOMAIN e.rows : e.rows[k].d > 200 -> "an event does not carry the weight of its own system"
      [] e.par = "same" /\ (\E k \in DOMAIN e.rows : e.rows[k].inv > 200) -> "the simulated population itself is not recovered"
      [] e.back # e.rows -> "the weights in the file are not the ones computed"
      [] ~e.params -> "the parameters in the file are not the ones used"
      [] OTHER -> "ok"

(* --- efficiencies: numbers of events per solar mass ----------------------- *)
Part(s, w, met, ch) == SumSeq([k \in DOMAIN w |-> IF s.evs[k].met = met /\ (ch = "" \/ s.evs[k].ch = ch) THEN w[k] ELSE 0])
Near(a, b, n) == Abs(a - b) <= n + 2 + (a \div 1000)
EffClause(s, e) ==
    CASE Mw(s, e.id) = {} -> IF e.err # "none" THEN "ok" ELSE "efficiencies of weights that do not exist"
      [] e.err # "none" -> "efficiencies cannot be computed"
      [] {x.met : x \in Range(e.tot)} # s.mets -> "not one efficiency per simulated metallicity"
      [] \E x \in Range(e.tot) : ~Near(Part(s, e.w, x.met, ""), x.w, Len(e.w)) -> "efficiency is not the sum of the weights of its metallicity"
      [] \E x \in Range(e.chs) : ~Near(Part(s, e.w, x.met, x.c), x.w, Len(e.w)) -> "efficiency of a channel is not the sum of its weights"
      [] e.ch /\ {x.c : x \in Range(e.chs)} # {x.ch : x \in Range(s.evs)} -> "not one efficiency per channel"
      [] OTHER -> "ok"

(* --- cosmic weights -------------------------------------------------------- *)
(* births at the middle of steps of cosmic time; an event happens its delay   *)
(* later, if the universe is old enough                                       *)
Happens(s, e, k, b) == e.tb[b] + 1000 * s.evs[k].delay < s.age
CloseCall(s, e, k, b) == Abs(e.tb[b] + 1000 * s.evs[k].delay - s.age) < 50
RowOK(s, e, k, P(_, _)) == \A b \in 1..e.nb : CloseCall(s, e, k, b) \/ P(k, b)
CosmicClause(s, e) ==
    CASE Mw(s, e.id) = {} -> IF e.err = "ValueError" THEN "ok" ELSE "cosmic weights from model weights that do not exist"
      [] e.err # "none" -> "cosmic weights cannot be computed"
      [] ~e.modelok -> "the star-formation model in the file is not the one asked for"
      [] ~e.birth -> "wrong birth times"
      [] ~RowsInOrder(s, e.rows) \/ (\E k \in DOMAIN e.rows : e.rows[k].zix # s.evs[k].ix) -> "not one row per event, in the order of the events"
      [] \E k \in DOMAIN e.rows : Len(e.rows[k].z) # e.nb -> "not one column per birth time"
      [] \E k \in DOMAIN e.rows : \E b \in 1..e.nb : ~CloseCall(s, e, k, b) /\ (Happens(s, e, k, b) # (e.rows[k].z[b] >= 0)) ->
           "an event happens after the present, or one in the past is lost"
      [] \E k \in DOMAIN e.rows : \E b \in 1..e.nb : ~CloseCall(s, e, k, b) /\ Happens(s, e, k, b)
           /\ Abs(e.rows[k].z[b] - e.rows[k].zx[b]) > 30 + e.rows[k].zx[b] \div 500 -> "wrong redshift of an event"
      [] \E k \in DOMAIN e.rows : \E b \in 1..e.nb : ~CloseCall(s, e, k, b)
           /\ (IF Happens(s, e, k, b) THEN s.evs[k].met ELSE 0) \notin Range(e.rows[k].fit[b]) -> "wrong cosmic weight of an event"
      [] OTHER -> "ok"

(* --- rate densities -------------------------------------------------------- *)
InBin(e, k, b, i) == e.z[k][b] > e.edges[i] /\ e.z[k][b] <= e.edges[i + 1]
OnEdge(e, k, b) == \E i \in DOMAIN e.edges : Abs(e.z[k][b] - e.edges[i]) < 3
BinSum(s, e, i, ch) == SumSeq([k \in DOMAIN e.z |-> IF ch # "" /\ s.evs[k].ch # ch THEN 0 ELSE
                         SumSeq([b \in DOMAIN e.z[k] |-> IF InBin(e, k, b, i) THEN Nonneg(e.w[k][b]) ELSE 0])])
Terms(e) == Len(e.z) * (IF Len(e.z) = 0 THEN 0 ELSE Len(e.z[1]))
Edgy(e) == \E k \in DOMAIN e.z : \E b \in DOMAIN e.z[k] : e.z[k][b] >= 0 /\ OnEdge(e, k, b)
DNear(a, b, n) == Abs(a - b) <= n + 2 + a \div 40
DensityClause(s, e) ==
    CASE Rt(s, e.sfh) = {} -> IF e.err = "ValueError" THEN "ok" ELSE "rates of a history that was never computed"
      [] e.before # (IF (CHOOSE x \in Rt(s, e.sfh) : TRUE).dens THEN "none" ELSE "ValueError") -> "a rate density that does not belong to the current weights"
      [] e.ev = "readdensity" -> "ok"
      [] e.err # "none" -> "rate density cannot be computed"
      [] ~e.back -> "the rate density in the file is not the one computed"
      [] Len(e.z) # Len(s.evs) -> "rates do not cover the events"
      [] e.n # Len(e.edges) - 1 \/ ~e.zi -> "wrong redshift bins"
      [] Edgy(e) -> "ok"
      [] \E i \in 1..e.n : ~DNear(BinSum(s, e, i, ""), e.tot[i], Terms(e)) -> "rate density is not the sum over the events in its volume"
      [] \E x \in Range(e.chs) : \E i \in 1..e.n : ~DNear(BinSum(s, e, i, x.c), x.v[i], Terms(e)) -> "rate density of a channel is not the sum over its events"
      [] e.ch /\ {x.c : x \in Range(e.chs)} # {x.ch : x \in Range(s.evs)} -> "not one rate density per channel"
      [] OTHER -> "ok"

(* --- observable populations ------------------------------------------------ *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
ObsNames(s, e) == s.obs \cup {e.obs}
ObserveClause(s, e) ==
    CASE Rt(s, e.sfh) = {} -> IF e.err = "ValueError" THEN "ok" ELSE "observables of a history that was never computed"
      [] e.err # "none" -> "observable population cannot be computed"
      [] Flat([i \in DOMAIN e.calls |-> e.calls[i].t]) # [k \in DOMAIN s.evs |-> 1000 * s.evs[k].id + s.evs[k].j] ->
           "the selection does not see every event once, in order"
      [] \E c \in Range(e.calls) : c.z # c.w \/ Len(c.z) # Len(c.t) -> "the chunks of events, redshifts and weights do not belong together"
      [] ~RowsInOrder(s, e.rows) -> "not one observable row per event"
      [] \E r \in Range(e.rows) : r.d # 0 -> "an observable weight is not what the selection made of the event's weight"
      [] Range(e.names) # ObsNames(s, e) -> "wrong list of observable populations"
      [] OTHER -> "ok"

(* --- contents of the file -------------------------------------------------- *)
Keys(s) == UNION {{"/weights/" \o x.id, "/weights/" \o x.id \o "_population_parameters"} : x \in s.mw}
           \cup UNION {{"/rates/" \o x.sfh \o "/" \o k : k \in {"MODEL", "birth", "weights", "z_events"} \cup (IF x.dens THEN {"intrinsic_rate_density"} ELSE {})} : x \in s.rates}
           \cup {"/rates/observable/" \o n : n \in s.obs}
RecreateClause(s, e) ==
    LET want == IF e.half THEN First(s) ELSE s.all IN
    IF e.rows # [k \in DOMAIN want |-> [ix |-> want[k].ix, s |-> 1000 * want[k].id + want[k].j]] THEN "the transient population is not the selected events" ELSE "ok"

Clause(s, e) ==
    CASE e.ev = "weights" -> WeightsClause(s, e)
      [] e.ev = "eff" -> EffClause(s, e)
      [] e.ev = "cosmic" -> CosmicClause(s, e)
      [] e.ev = "density" \/ e.ev = "readdensity" -> DensityClause(s, e)
      [] e.ev = "observe" -> ObserveClause(s, e)
      [] e.ev = "recreate" -> RecreateClause(s, e)
      [] e.ev = "keys" -> IF Range(e.keys) = Keys(s) THEN "ok" ELSE "the file holds results that do not belong to the current events"
      [] OTHER -> "unexpected failure"

Apply(s, e) ==
    CASE e.ev = "weights" -> [s EXCEPT !.mw = (@ \ Mw(s, e.id)) \cup {[id |-> e.id, par |-> e.par]}]
      [] e.ev = "cosmic" /\ e.err = "none" ->
           [s EXCEPT !.rates = (@ \ Rt(s, e.sfh)) \cup {[sfh |-> e.sfh, model |-> e.model, par |-> (CHOOSE x \in Mw(s, e.id) : TRUE).par, dens |-> FALSE]}]
      [] e.ev = "density" /\ e.err = "none" -> [s EXCEPT !.rates = {IF x.sfh = e.sfh THEN [x EXCEPT !.dens = TRUE] ELSE x : x \in @}]
      [] e.ev = "observe" /\ e.err = "none" -> [s EXCEPT !.obs = @ \cup {e.obs}]
      [] e.ev = "recreate" -> [s EXCEPT !.evs = IF e.half THEN First(s) ELSE s.all, !.mw = {}, !.rates = {}, !.obs = {}]
      [] OTHER -> s
=============================================================================
