----------------------------- MODULE PopFileGen -----------------------------
(* Scripts: a population (systems, their order, chunking), then operations.  *)
EXTENDS PopFile, Json, TLC
CONSTANT Kind
VARIABLE c
(* layout: the indices in the order of the file                               *)
Layouts == {<<0, 1, 2, 3>>, <<2, 3, 0, 1>>, <<1, 4, 7>>, <<3, 1, 2, 0>>, <<5>>, <<0, 1, 2, 3, 4>>}
Chunks == {1, 2, 3, 100}
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
Sels(l) == {l, Rev(l), <<l[1]>>, <<l[Len(l)]>>, <<l[1], 9>>, <<8>>} \cup (IF Len(l) > 2 THEN {<<l[3], l[1]>>, <<l[2], l[3]>>} ELSE {})
Export(l) == [op : {"export"}, sel : Sels(l), mode : {"new", "overwrite", "append"}, hchunk : {1, 100}]
Back == [op : {"back"}, mode : {"append"}, hchunk : {2, 100}]
Gets == [op : {"gets"}, n : 1..4]
Chans == [op : {"channels"}, mode : {"plain", "mt"}]
Trans == [op : {"transient"}, cols : BOOLEAN, shape : {"any", "none", "first", "empty"}]
Base == [l : Layouts, chunk : Chunks, mets : {1, 2}, met : BOOLEAN]
Ops(l) == CASE Kind = "Q01" -> {<<g, e1>> : g \in Gets, e1 \in Export(l)} \cup {<<[op |-> "channels", mode |-> "mt"], e1, e2>> : e1 \in Export(l), e2 \in [op : {"export"}, sel : {<<l[1]>>, l}, mode : {"append", "new", "overwrite", "both"}, hchunk : {1, 100}]}
                              \cup {<<e1, e2>> : e1 \in Export(l), e2 \in Back}
            [] Kind = "Q02" -> {<<x, y>> : x \in Chans, y \in Trans} \cup {<<x, y, z>> : x \in Trans, y \in Chans, z \in Trans}
                              \cup {<<e, x, [op |-> "use"], y>> : e \in [op : {"export"}, sel : {Rev(l), l} \cup (IF Len(l) > 1 THEN {<<l[Len(l)], l[1]>>} ELSE {}), mode : {"new"}, hchunk : {1, 100}], x \in Chans, y \in Trans}
Init == \E b \in Base : \E o \in Ops(b.l) :
          /\ (b.met \/ (b.mets = 1 /\ o[2].op # "back")) /\ (Kind = "Q02" => b.met)
          /\ c = [b |-> b, ops |-> o]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
