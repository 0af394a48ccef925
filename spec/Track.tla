-------------------------------- MODULE Track --------------------------------
(* Following a precomputed run: what a binary is after a grid step, and what  *)
(* of the run its history keeps.                                              *)
(* Times in units of the script, quantities in 1/1000. A run is a sequence of *)
(* rows [t, v, a, b, rl1, rl2, rate, m1, m2]: v the vector of its quantities, *)
(* a and b the compositions of the stars in the order of the grid.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
S == INSTANCE Stellar
Abs(n) == IF n < 0 THEN -n ELSE n
Close(u, w, tol) == Len(u) = Len(w) /\ \A i \in DOMAIN u : Abs(u[i] - w[i]) <= tol
(* x: [rows, cls, t0, max, track, save, stop, interp, method, fin, fint, none]  *)
Dead(x) == IF x.method = "IF" THEN x.none ELSE x.none \/ Len(x.rows) <= 1 \/ x.cls = "initial_MT"
End(x) == x.t0 + (IF x.method = "IF" THEN x.fint ELSE x.rows[Len(x.rows)].t)
(* the run is cut where the time runs out                                     *)
RunEnd(x) == x.t0 + x.rows[Len(x.rows)].t
Reaches(x) == x.stop = "stop_at_max_time" /\ End(x) > x.max
Cut(x) == Reaches(x) /\ RunEnd(x) > x.max
UsesRun(x) == x.method = "NN" \/ Reaches(x)
K(x) == CHOOSE k \in DOMAIN x.rows : x.t0 + x.rows[k].t <= x.max /\ \A j \in DOMAIN x.rows : (x.t0 + x.rows[j].t <= x.max => j <= k)
Between(p, q, num, den) == [i \in DOMAIN p |-> p[i] + ((q[i] - p[i]) * num) \div den]
FinalV(x) ==
    CASE Cut(x) /\ x.interp -> LET k == K(x) IN Between(x.rows[k].v, x.rows[k + 1].v, x.max - x.t0 - x.rows[k].t, x.rows[k + 1].t - x.rows[k].t)
      [] Cut(x) -> x.rows[K(x)].v
      [] UsesRun(x) -> x.rows[Len(x.rows)].v
      [] OTHER -> x.fin
FinalT(x) ==
    CASE Cut(x) /\ x.interp -> x.max
      [] Cut(x) -> x.t0 + x.rows[K(x)].t
      [] UsesRun(x) -> RunEnd(x)
      [] OTHER -> End(x)
(* which rows of the run are kept                                             *)
Kept(x) ==
    IF ~UsesRun(x) THEN <<>>
    ELSE (IF x.save THEN <<1>> ELSE <<>>) \o
         (IF ~x.track THEN <<>> ELSE [j \in 1..(IF ~Cut(x) THEN Len(x.rows) - 1 ELSE IF x.interp THEN K(x) ELSE K(x) - 1) |-> j])
Star(r, k) == S!RowState(r, k)
Swap(x, str) == IF x.flip THEN S!Swap(str) ELSE str
SwapC(x, str) == IF x.flip THEN S!SwapCase(str) ELSE str
Now(r, cls) == S!BinaryNow([cls |-> cls, rl1 |-> r.rl1, rl2 |-> r.rl2, rate |-> r.rate, st1 |-> Star(r, 1), st2 |-> Star(r, 2), g1 |-> S!None, g2 |-> S!None])
(* the event that ends the step                                               *)
Event(x) == CASE FinalT(x) = x.max -> "maxtime" [] FinalT(x) > x.max -> "MaxTime_exceeded" [] OTHER -> "own"

(* --- replay ------------------------------------------------------------------ *)
Fresh(e) == [n |-> 0]
Judge(e) ==
    LET x == e.x g == e.got kept == Kept(x) last == x.rows[Len(x.rows)] IN
    CASE e.err # "none" -> "a binary inside the grid cannot be evolved"
      [] Dead(x) -> (IF g.state # "initial_RLOF" THEN "a binary that overflows at the start is not recognised"
                     ELSE IF ~g.same THEN "a binary that overflows at the start was changed" ELSE "ok")
      [] x.method = "IF" /\ x.cls = "initial_MT" /\ ~Reaches(x) -> IF g.state = "initial_RLOF" THEN "ok" ELSE "a binary that overflows at the start is not recognised"
      [] x.method = "IF" /\ Reaches(x) /\ (Len(x.rows) <= 1 \/ x.cls = "initial_MT") -> "ok"
      [] g.time # FinalT(x) -> "wrong time after the step"
      [] ~Close(g.v, FinalV(x), 2) -> "a quantity does not follow the run"
      [] Cardinality({g.lens[i] : i \in DOMAIN g.lens}) # 1 -> "histories of different lengths"
      [] g.lens[1] # e.len0 + Len(kept) -> "the history does not keep the right rows of the run"
      [] g.times # [i \in DOMAIN kept |-> x.t0 + x.rows[kept[i]].t] -> "the history has wrong times"
      [] Len(g.rows) # Len(kept) \/ \E i \in DOMAIN kept : ~Close(g.rows[i], x.rows[kept[i]].v, 2) -> "the history has wrong quantities"
      [] \E i \in DOMAIN kept : g.states[i] # <<Star(x.rows[kept[i]], 1), Star(x.rows[kept[i]], 2)>> -> "the history has wrong states of the stars"
      [] \E i \in DOMAIN kept : g.bstates[i] # Swap(x, Now(x.rows[kept[i]], "None")[1]) -> "the history has wrong states of the binary"
      [] Event(x) # "own" /\ g.event # Event(x) -> "running out of time is not announced"
      [] Event(x) = "own" /\ ~Cut(x) /\ x.method = "NN" /\ <<g.event, g.state, g.case>> # <<Swap(x, Now(last, x.cls)[2]), Swap(x, Now(last, x.cls)[1]), SwapC(x, Now(last, x.cls)[3])>> -> "wrong state or event after the step"
      [] ~Cut(x) /\ UsesRun(x) /\ g.stars # <<Star(last, 1), Star(last, 2)>> -> "wrong kind of star after the step"
      [] Cut(x) /\ (LET p == x.rows[K(x)] q == IF x.interp THEN x.rows[K(x) + 1] ELSE p IN
                    \E j \in {1, 2} : Star(p, j) = Star(q, j) /\ g.stars[j] # Star(p, j)) -> "a star cut off before the end of the run is not of the kind it is then"
      [] Cut(x) /\ (LET p == x.rows[K(x)] q == IF x.interp THEN x.rows[K(x) + 1] ELSE p IN
                    Now(p, "None") = Now(q, "None") /\ p.rl1 = q.rl1 /\ p.rl2 = q.rl2 /\ p.rate = q.rate /\ (g.state # Swap(x, Now(p, "None")[1]) \/ g.case # SwapC(x, Now(p, "None")[3])))
           -> "a binary cut off before the end of the run is not in the state it is then"
      [] \E i \in DOMAIN g.mdot : g.mdot[i][1] > g.mdot[i][3] + 1 -> "accretion above the Eddington limit"
      [] \E i \in DOMAIN g.mdot : g.mdot[i][1] < (IF g.mdot[i][2] < g.mdot[i][3] THEN g.mdot[i][2] ELSE g.mdot[i][3]) - 1 -> "accretion below the rate of the run"
      [] \E i \in DOMAIN g.co : ~Close(g.co[i][1], g.co[i][2], 1) -> "spin or radius of the compact object does not follow its mass"
      [] ~Cut(x) /\ x.method = "NN" /\ g.flags # e.flags -> "the classification of the run is not passed on"
      [] g.other # e.other -> "a quantity that the run does not change was changed"
      [] g.tags # <<1, 2>> -> "the two stars are exchanged after the step"
      [] OTHER -> "ok"
Clause(s, e) == IF e.ev = "track" THEN Judge(e) ELSE "unexpected failure"
Apply(s, e) == [n |-> s.n + 1]
=============================================================================
