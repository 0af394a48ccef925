------------------------------ MODULE SamplingMC -----------------------------
(* Two mechanisms behind the rules of Sampling, checked exhaustively:        *)
(* (1) the reader serves any window of a finite file by doubling the columns *)
(*     until the window fits, then cutting it out: this has to be the same   *)
(*     as reading the file in a cycle, column by column;                     *)
(* (2) the generator makes binaries and turns some of them into single stars *)
(*     by erasing three of the four arrays in place: it must not touch the   *)
(*     primary masses, which a copy of the array guarantees and an alias     *)
(*     does not (MaskAlias = TRUE is the broken variant, refuted).           *)
EXTENDS Sampling
CONSTANTS MaxRows, MaxNum, MaxIdx, MaskAlias
VARIABLES pc, rows, num, idx, cols, win, m1, m2, todo
vars == <<pc, rows, num, idx, cols, win, m1, m2, todo>>
NB == 3

Init ==
    /\ \/ pc = "read" /\ rows \in 1..MaxRows /\ num \in 1..MaxNum /\ idx \in 0..MaxIdx /\ todo = {}
       \/ pc = "mask" /\ rows = 1 /\ num = 1 /\ idx = 0 /\ todo \in SUBSET (1..NB)
    /\ cols = [q \in 1..2 |-> [r \in 1..rows |-> 100 * q + r]]
    /\ win = <<>>
    /\ m1 = [i \in 1..NB |-> i] /\ m2 = [i \in 1..NB |-> i]

Double ==
    /\ pc = "read" /\ Len(cols[1]) < idx + num
    /\ cols' = [q \in 1..2 |-> cols[q] \o cols[q]]
    /\ UNCHANGED <<pc, rows, num, idx, win, m1, m2, todo>>
Cut ==
    /\ pc = "read" /\ Len(cols[1]) >= idx + num
    /\ win' = [q \in 1..2 |-> SubSeq(cols[q], idx + 1, idx + num)]
    /\ pc' = "done"
    /\ UNCHANGED <<rows, num, idx, cols, m1, m2, todo>>
Erase ==
    /\ pc = "mask" /\ todo # {}
    /\ LET i == CHOOSE j \in todo : TRUE IN
       /\ m2' = [m2 EXCEPT ![i] = -1]
       /\ m1' = IF MaskAlias THEN [m1 EXCEPT ![i] = -1] ELSE m1
       /\ todo' = todo \ {i}
    /\ UNCHANGED <<pc, rows, num, idx, cols, win>>
Next == Double \/ Cut \/ Erase
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Cfg(q) == [num |-> num, idx |-> idx, rows |-> rows, cols |-> <<<<q, q>>>>]
Cyclic == pc = "done" => \A q \in 1..2 : win[q] = Wanted(Cfg(q), q)
MassKept == \A i \in 1..NB : m1[i] > 0
FractionMonotone == \A i \in 1..4 : Moe[i] < Moe[i + 1]
Ends == <>(pc = "done" \/ pc = "mask")
=============================================================================
