------------------------------ MODULE RatesGen ------------------------------
(* Scripts: a file with events, then weightings and rates in every order.    *)
EXTENDS Rates, Json, TLC
VARIABLE c
W == [op : {"weights"}, id : {"A", "B"}, par : {"same", "salpeter", "singles", "narrow", "power"}]
C(m) == [op : {"cosmic"}, sfh : {"S", "R"}, id : {"A", "B"}, model : {"mf17", "nei", "md14"} \cup (IF Len(m) = 1 THEN {"mf17list", "mf17float"} ELSE {})]
D == [op : {"density"}, sfh : {"S"}, ch : BOOLEAN]
RD == {[op |-> "readdensity", sfh |-> "S", ch |-> FALSE]}
O == [op : {"observe"}, sfh : {"S", "R"}, name : {"x", "y"}, f : {50}]
F == [op : {"eff"}, id : {"A"}, ch : BOOLEAN]
R == [op : {"recreate"}, half : BOOLEAN]
(* the driver varies the order of the systems and the size of the chunks     *)
Base == [mets : {<<10000>>, <<1000>>, <<1>>, <<10000, 1000>>, <<1000, 4500, 2000>>, <<100, 10, 1>>, <<20000, 10000, 4500, 2000, 1000, 100, 10, 1>>}]
WA == {w \in W : w.id = "A"}
CA(m) == {x \in C(m) : x.sfh = "S" /\ x.id = "A"}
Ops(m) == {<<w, x, y>> : w \in WA, x \in F, y \in F}
       \cup {<<w, x, d, y>> : w \in WA, x \in CA(m), d \in D, y \in O \cup RD \cup CA(m)}
       \cup {<<w, x, d, y, rd>> : w \in WA, x \in CA(m), d \in D, y \in CA(m) \cup R \cup O, rd \in RD \cup O}
       \cup {<<w, v, x, y, z>> : w \in WA, v \in {q \in W : q.id = "B"}, x \in CA(m), y \in {q \in C(m) : q.sfh = "R"}, z \in D}
       \cup {<<w, v, x, y, o>> : w \in WA, v \in WA, x \in C(m), y \in O, o \in O}
       \cup {<<w, r, x, v, y>> : w \in WA, r \in R, x \in CA(m) \cup F, v \in WA, y \in CA(m)}
       \cup {<<w, x, d, v, rd, f>> : w \in WA, x \in CA(m), d \in D, v \in WA, rd \in RD, f \in F}
       \cup {<<w, [op |-> "cosmic", sfh |-> "S", id |-> "A", model |-> "mf17"], [op |-> "cosmic", sfh |-> "R", id |-> "A", model |-> "default"], d>> : w \in WA, d \in D}
Init == \E b \in Base : \E o \in Ops(b.mets) : c = [mets |-> b.mets, ops |-> o]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
