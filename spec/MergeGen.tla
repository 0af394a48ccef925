------------------------------- MODULE MergeGen -----------------------------
EXTENDS Merge, Json, TLC
VARIABLE c
All == Stars \cup {"WD"} \cup Heavy
Mergers == [what : {"merge"}, a : All, b : All, event : MergeEvents \cup RLOEvents \cup {"None"}, bstate : {"merged", "RLO1"}, n : 1..6]
Lone == [what : {"alone"}, a : {"H-rich_Core_H_burning", "stripped_He_Core_He_burning", "NS"}, b : {"massless_remnant", "BH", "H-rich_Core_He_burning"},
         event : {"None"}, bstate : {"merged", "disrupted", "initially_single_star", "detached", "RLO1"}, n : 1..3]
Init == c \in { x \in Mergers : (x.bstate = "merged" /\ x.event \in MergeEvents) \/ x.n = 1
                                \/ (x.event \in RLOEvents /\ x.a \in He /\ x.b \in He) } \cup Lone
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
