------------------------------ MODULE InterpMC ------------------------------
(* Sweeps a mass across every small grid and checks what the rules promise.  *)
EXTENDS Interp
VARIABLES R, M, seen
Vals == {NA, 0, 2400}
Lights == {<<-240, 0>>, <<0, 0, 0>>, <<-480, -240, 240>>}
Profs == {<<64, 16>>, <<64, 48, 32>>}
Grids == {[i \in 1..3 |-> [m |-> <<8, 4, 16>>[i], f |-> f[i], s |-> <<"BH", "NS", "WD">>[i], d |-> d[i],
            a |-> [j \in Ix(d[i]) |-> 240 * i * j], w |-> [j \in Ix(d[i]) |-> 240 * <<8, 4, 16>>[i]], v |-> [j \in Ix(d[i]) |-> (2400 * i) - (480 * j)],
            p |-> [j \in Ix(p[i]) |-> <<p[i][j], 1440 * (i + j)>>]]] : f \in [1..3 -> Vals], d \in [1..3 -> Lights], p \in [1..3 -> Profs]}
Init == R \in Grids /\ M = 2 /\ seen = {}
Next == M < 18 /\ M' = M + 1 /\ R' = R /\ seen' = IF Inside(R, M) THEN seen \cup {Class(R, M)} ELSE seen
Spec == Init /\ [][Next]_<<R, M, seen>>

Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OwnModels == Known(R, M) => LET r == At(R, M) z == Zams(r.d) IN
  /\ Final(R, M) = r.f /\ Class(R, M) = r.s /\ Host(R, M) = M
  /\ Track(R, "other", M) = SubSeq(r.v, z, Len(r.v)) /\ Structure(R, M) = [i \in Ix(r.p) |-> r.p[i][2]]
NoExtrapolation == Inside(R, M) <=> (M >= 4 /\ M <= 16)
WithinNeighbours == (Inside(R, M) /\ ~Known(R, M)) => LET lo == At(R, Lo(R, M)) hi == At(R, Hi(R, M)) x == Raw(R, "other", M) IN
  /\ \A i \in Ix(x) : Between(x[i], lo.v[i], hi.v[i])
  /\ Class(R, M) \in {lo.s, hi.s}
  /\ (lo.f # NA /\ hi.f # NA) => Between(Final(R, M), lo.f, hi.f)
  /\ Len(Structure(R, M)) = Len(At(R, Host(R, M)).p)
TracksStartAtZero == Inside(R, M) => LET a == Track(R, "age", M) IN a # <<>> /\ a[1] = 0 /\ \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
SameLengths == Inside(R, M) => Len(Track(R, "age", M)) = Len(Track(R, "other", M)) /\ Len(Track(R, "mass", M)) = Len(Track(R, "other", M))
MissingOnlyAtEdges == (Inside(R, M) /\ ~Known(R, M) /\ Final(R, M) = NA) => (Below(R, M) \cap Has(R) = {} \/ Above(R, M) \cap Has(R) = {})
ClassesInOrder == M = 18 => seen = {"BH", "NS", "WD"}

(* the nearest binary model *)
Pts == {[a |-> a, b |-> b, p |-> p] : a \in {4, 6}, b \in {2, 4}, p \in {0, 3}}
BinGrid(q) == [q |-> q, runs |-> <<[a |-> 4, b |-> 4, p |-> 0, cls |-> "no_MT", hole |-> FALSE], [a |-> 6, b |-> 4, p |-> 3, cls |-> "not_converged", hole |-> FALSE],
                          [a |-> 6, b |-> 2, p |-> 3, cls |-> "stable_MT", hole |-> FALSE], [a |-> 4, b |-> 2, p |-> 3, cls |-> "stable_MT", hole |-> TRUE]>>]
NearestUsable == M = 2 => \A q \in {TRUE, FALSE}, x \in Pts : LET c == BinGrid(q) N == Nearest(c, x) IN
  N # {} /\ N \subseteq {1, 3} /\ (x = [a |-> 4, b |-> 4, p |-> 0] => N = {1}) /\ (x = [a |-> 6, b |-> 2, p |-> 3] => N = {3})
=============================================================================
