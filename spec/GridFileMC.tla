----------------------------- MODULE GridFileMC -----------------------------
(* Reading grids run by run into a table keyed by parameters (what joining
   does) gives the same as the rule; joining from the left, one grid at a time,
   is joining all at once.                                                    *)
EXTENDS GridFile, TLC
CONSTANTS Ps, NG, NR
VARIABLES gs, todo, acc, pair
Flags == {"ok", "noRLO"}
Grids == {g \in UNION {[1..n -> [p : Ps, flag : Flags]] : n \in 0..NR} : \A a, b \in DOMAIN g : a # b => g[a].p # g[b].p}
Mk(g, k) == [i \in 1..Len(g) |-> [u |-> 10 * k + i, p |-> g[i].p, flag |-> g[i].flag, empty |-> g[i].flag = "noRLO"]]
Init == /\ \E f \in [1..NG -> Grids] : gs = [k \in 1..NG |-> Mk(f[k], k)]
        /\ todo = Flat(gs) /\ acc = {} /\ pair = <<>>
Put(x) == {y \in acc : y.p # x.p} \cup (IF x.flag = "noRLO" THEN {} ELSE {x})
Next == todo # <<>> /\ acc' = Put(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<gs, pair>>
Cfg == [rlo |-> TRUE, fix |-> TRUE]
Res(q) == LET all == Flat(q) IN {all[i] : i \in JoinLast(all)}
AsSeq(S) == LET f[n \in 0..Cardinality(S)] == IF n = 0 THEN [s |-> <<>>, r |-> S]
                   ELSE LET x == CHOOSE y \in f[n - 1].r : TRUE IN [s |-> Append(f[n - 1].s, x), r |-> f[n - 1].r \ {x}]
            IN f[Cardinality(S)].s
Same == todo = <<>> => acc = Res(gs)
OncePerPoint == \A x, y \in acc : x.p = y.p => x = y
LeftFold == todo = <<>> /\ NG > 2 => Res(<<AsSeq(Res(SubSeq(gs, 1, 2)))>> \o SubSeq(gs, 3, NG)) = Res(gs)
Accepted == todo = <<>> => JoinOk(Cfg, gs, AsSeq(acc))
=============================================================================
