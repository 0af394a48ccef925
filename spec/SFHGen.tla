------------------------------ MODULE SFHGen ---------------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
VARIABLE c
K == 8
Edges == { <<1, 7>>, <<2, 4>>, <<4, 5>>, <<0, 3, 8>>, <<2, 3, 5>>, <<3, 4, 6>>, <<1, 2, 4, 7>>, <<2, 3, 4, 5, 6>>, <<0, 2, 3, 5, 6, 8>> }
Init == \E e \in Edges, a \in -1..K, b \in -1..K, n \in BOOLEAN, m \in 1..7, w \in 1..4 :
          /\ (a >= 0 /\ b >= 0 => a < b)
          /\ (m # 1 /\ m # 2 => w = 1)
          /\ c = [edges |-> e, zmin |-> a, zmax |-> b, norm |-> n, m |-> m, w |-> w]
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
