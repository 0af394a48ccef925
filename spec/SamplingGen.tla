------------------------------ MODULE SamplingGen ----------------------------
EXTENDS Sampling, TLC, Json
VARIABLE c

Indep == { x \in [kind: {"indep"}, m1s: 1..3, m1r: 0..3, m2s: 0..1, m2r: 0..2, orb: 0..8, ecc: 1..3,
                  bf: {1000, 700, 0, -1}, n: {1, 3, 4000, 20000}] :
             /\ (x.m2s = 1 => x.m2r = 0)
             /\ (x.m1s + x.m1r + x.m2s + 2 * x.m2r + 3 * x.orb + x.ecc
                 + (CASE x.bf = 1000 -> 0 [] x.bf = 700 -> 1 [] x.bf = 0 -> 2 [] OTHER -> 3)
                 + (CASE x.n = 1 -> 0 [] x.n = 3 -> 1 [] x.n = 4000 -> 2 [] OTHER -> 3)) % 7 = 0 }
Dist == [kind: {"dist"}, d: 1..12, r: 0..4, n: {1, 20000}]
(* the columns of a file: at most two aliases of a quantity, any order of aliases *)
OneQ(q, as) == { <<>> } \union { <<<<q, a>>>> : a \in as } \union { <<<<q, p[1]>>, <<q, p[2]>>>> : p \in { z \in as \X as : z[1] # z[2] } }
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Files == { [kind |-> "file", orb |-> o, rows |-> r, num |-> m, idx |-> i, cse |-> k,
            cols |-> Cat(<<a, b, d, e>>)] :
           a \in OneQ(1, {2}), b \in OneQ(2, {1, 5}), d \in OneQ(3, {1, 4}), e \in OneQ(4, {1, 3, 5}),
           o \in {0, 1}, r \in {3}, m \in {0, 7}, i \in {-1, 5}, k \in {0} }
         \union
         { [kind |-> "file", orb |-> o, rows |-> r, num |-> m, idx |-> i, cse |-> k,
            cols |-> <<<<4, ((r + m) % 5) + 1>>, <<2, ((i + m + k) % 5) + 1>>, <<1, ((r + k) % 3) + 1>>, <<3, ((o + m) % 5) + 1>>>>] :
           o \in {0, 1}, r \in {1, 2, 3, 5}, m \in {0, 1, 2, 3, 5, 8, 13}, i \in {-1, 0, 1, 2, 5, 9}, k \in 0..2 }
(* kick columns: quantities 1..8 (velocity and three angles of each star)    *)
Kicks == { [kind |-> "kick", orb |-> 0, rows |-> r, num |-> m, idx |-> i, cse |-> k,
            cols |-> Cat([q \in 1..8 |-> IF q \in miss THEN <<>> ELSE IF q = two THEN <<<<q, 3>>, <<q, 2>>>> ELSE <<<<q, ((q + r + k) % 4) + 1>>>>])] :
           r \in {1, 2, 5}, m \in {0, 1, 3, 8}, i \in {-1, 0, 2, 7}, k \in 0..2,
           miss \in {{}, {1}, {3, 5}, {8}}, two \in {0, 2, 6} }
Form == [kind: {"form"}, sc: 1..6, mx: 0..2, n: {1, 3, 20000}, mn: {0, 1}]

Init == c \in Indep \/ c \in Dist \/ c \in Files \/ c \in Kicks \/ c \in Form
Spec == Init /\ [][UNCHANGED c]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
