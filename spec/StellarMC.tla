------------------------------ MODULE StellarMC ------------------------------
(* A pair of stars grows older, overflows and retreats, row by row.           *)
EXTENDS Stellar
CONSTANT MaxLen
VARIABLES q, b
vars == <<q, b>>
Ph == [d : {"1", "2"}, c : {"A", "B", "BB", "nonburning", "?"}] \cup {[d |-> "1", c |-> "no_RLO"]}
Sts == {"H-rich_Core_H_burning", "H-rich_Core_He_burning", "H-rich_Core_C_depleted", "accreted_He_Core_H_burning", "stripped_He_Core_He_burning", "NS"}
Bin == [cls : {"initial_MT", "stable_MT", "unstable_MT"}, rl1 : {None, -500, 0, 1}, rl2 : {None, -500, 0, 1}, rate : {-10000, -9999}, st1 : Sts, st2 : Sts, g1 : {None, 100}, g2 : {None, 99}]
Init == q = <<>> /\ b \in {x \in Bin : x.g1 = None}
Plain == [cls |-> "stable_MT", rl1 |-> 0, rl2 |-> -500, rate |-> -9999, st1 |-> "NS", st2 |-> "NS", g1 |-> None, g2 |-> None]
Grow == b = Plain /\ Len(q) < MaxLen /\ \E p \in Ph : q' = Append(q, p) /\ UNCHANGED b
Next == Grow
Spec == Init /\ [][Next]_vars
Other2(d) == IF d = "1" THEN "2" ELSE "1"
MirrorQ(p) == [i \in DOMAIN p |-> IF p[i].c = "no_RLO" THEN p[i] ELSE [p[i] EXCEPT !.d = Other2(@)]]
MirrorB(x) == [cls |-> x.cls, rl1 |-> x.rl2, rl2 |-> x.rl1, rate |-> x.rate, st1 |-> x.st2, st2 |-> x.st1, g1 |-> x.g2, g2 |-> x.g1]
SwapAll(t) == <<Swap(t[1]), Swap(t[2]), SwapCase(t[3])>>
Sh == Shifted(q)
(* a donor never returns to an earlier kind                                   *)
Forward == \A i, j \in DOMAIN Sh : (i < j /\ Sh[i].d = Sh[j].d /\ Sh[i].c \in Donors /\ Sh[j].c \in Donors) => Rank(Sh[i].c) <= Rank(Sh[j].c)
(* correcting twice changes nothing; corrections never touch the phases without transfer, nor who gave *)
Stable == Shifted(Sh) = Sh /\ \A i \in DOMAIN q : Sh[i].d = q[i].d /\ (q[i].c \notin Donors => Sh[i] = q[i])
(* what is summarised happened, and what happened is summarised               *)
NoLoss == LET real == Squeeze(SelectSeq(q, LAMBDA x : x.c \in Donors)) IN Range(real) = {x \in Range(q) : x.c \in Donors} /\ \A i \in 1..(Len(real) - 1) : real[i] # real[i + 1]
Marked == Has(Summary(q), "?") <=> (q = <<>> \/ \E x \in Range(q) : x.c = "?")
(* adding rows of the same phase changes nothing                              *)
Stutter == q # <<>> => Summary(Append(q, q[Len(q)])) = Summary(q)
(* names only                                                                 *)
MirrorSum == Shifted(MirrorQ(q)) = MirrorQ(Sh)
Ties == b.rl1 # None /\ b.rl2 # None /\ b.rl1 = b.rl2
BothCollapse == Core(b, 1) /\ Core(b, 2)
MirrorBin == (Ties \/ BothCollapse \/ (b.rl1 = None /\ b.rl2 = None)) \/ BinaryNow(MirrorB(b)) = SwapAll(BinaryNow(b))
Involution == \A n \in Named : Swap(Swap(n)) = n /\ Swap(n) # n
(* an event of overflow needs an overflow                                     *)
Honest == LET w == BinaryNow(b) IN (w[1] \in {"RLO1", "RLO2"} => w[3] # "None") /\ (w[1] = "detached" => w[3] = "None" /\ w[2] \in {"None", "CC1", "CC2"})
          /\ (w[2] \in {"oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"} => b.cls = "unstable_MT" /\ w[1] \in {"RLO1", "RLO2", "contact"})
ClassTotal == \A t \in StableFlags \cup UnstableFlags \cup ErrorFlags \cup InitialFlags : Class(t, Summary(q)) # "unknown"
Inv == Forward /\ Stable /\ NoLoss /\ Marked /\ Stutter /\ MirrorSum /\ MirrorBin /\ Involution /\ Honest /\ ClassTotal
=============================================================================
