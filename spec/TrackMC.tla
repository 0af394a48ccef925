------------------------------- MODULE TrackMC -------------------------------
(* Properties of following a run that do not depend on the code: for every    *)
(* run of up to four models, every moment of running out of time and every    *)
(* way of keeping the history.                                                *)
EXTENDS Track, TLC
VARIABLE x
Times == {<<0, 2>>, <<0, 3, 7>>, <<0, 1, 2, 8>>, <<0, 5, 6, 9>>}
Vals == {<<10, 40>>, <<10, 40, 20>>, <<10, 40, 20, 0>>, <<0, 0, 30, 10>>}
Runs == {<<p, q>> \in Times \X Vals : Len(p) = Len(q)}
Mk(r, t0, mx, tr, sv, st, ip, me, ft) ==
    [rows |-> [k \in DOMAIN r[1] |-> [t |-> r[1][k], v |-> <<r[2][k]>>]], t0 |-> t0, max |-> mx, track |-> tr, save |-> sv, stop |-> st, interp |-> ip,
     method |-> me, fint |-> ft, fin |-> <<5>>, none |-> FALSE, cls |-> "no_MT", flip |-> FALSE]
Init == \E r \in Runs, t0 \in {0, 3}, mx \in 3..13, tr, sv, ip \in BOOLEAN, st \in {"stop_at_max_time", "stop_at_end"}, me \in {"NN", "IF"}, ft \in {1, 5, 9} :
            x = Mk(r, t0, mx, tr, sv, st, ip, me, ft)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Runt(k) == x.t0 + x.rows[k].t
(* a run cut in the middle never goes past the end of the simulation          *)
InTime == /\ Reaches(x) => (FinalT(x) <= x.max)
          /\ FinalT(x) >= x.t0
          /\ (Cut(x) /\ x.interp => FinalT(x) = x.max)
          /\ (Event(x) = "maxtime" <=> FinalT(x) = x.max)
(* the history kept is in order, before the end, and complete when followed   *)
InOrder == /\ \A j \in DOMAIN Kept(x) : Runt(Kept(x)[j]) <= FinalT(x)
           /\ \A j \in 1..(Len(Kept(x)) - 1) : Kept(x)[j] <= Kept(x)[j + 1]
           /\ (x.track /\ UsesRun(x) => \A k \in DOMAIN x.rows : (Runt(k) < FinalT(x)) => \E j \in DOMAIN Kept(x) : Kept(x)[j] = k)
           /\ (~x.track => Len(Kept(x)) <= 1)
(* the final values lie between two models of the run                         *)
Inside == UsesRun(x) => \E k \in DOMAIN x.rows :
             \/ FinalV(x) = x.rows[k].v /\ (FinalT(x) = Runt(k))
             \/ k < Len(x.rows) /\ Runt(k) <= FinalT(x) /\ FinalT(x) <= Runt(k + 1)
                /\ (LET a == x.rows[k].v[1] b == x.rows[k + 1].v[1] v == FinalV(x)[1] IN (a <= v /\ v <= b) \/ (b <= v /\ v <= a))
(* followed or not, saved or not: the end is the same                         *)
SameEnd == \A tr, sv \in BOOLEAN : LET y == [x EXCEPT !.track = tr, !.save = sv] IN FinalT(y) = FinalT(x) /\ FinalV(y) = FinalV(x)
(* more time never means less evolution                                       *)
Monotone == LET y == [x EXCEPT !.max = @ + 1] IN FinalT(y) >= FinalT(x) \/ x.method = "IF"
=============================================================================
