------------------------------ MODULE ConfigGen ------------------------------
EXTENDS Config, Json, TLC
VARIABLE c
Sec(a, z, o, m, l) == [given |-> TRUE, abs |-> a, z |-> z, opt |-> o, mm |-> m, lst |-> l]
Plain == Sec(FALSE, 0, 0, 0, 0)
HMS == {NoSec, Plain, Sec(FALSE, 1000, 1, 0, 0), Sec(TRUE, 0, 1, 0, 0)}
Det == {NoSec, Plain, Sec(FALSE, 1000, 0, 0, 0), Sec(FALSE, 0, 1, 1, 0), Sec(TRUE, 0, 0, 1, 1), Sec(FALSE, 4500, 2, 0, 1)}
Mer == {NoSec, Plain, Sec(FALSE, 0, 0, 2, 1)}
SN == {NoSec, Sec(FALSE, 0, 1, 0, 0)}
File(h, d, m, s) == [steps |-> [step_HMS_HMS |-> h, step_detached |-> d, step_merged |-> m, step_SN |-> s, step_end |-> Plain], hooks |-> {}, path |-> 0]
File2 == {[steps |-> [step_detached |-> Sec(FALSE, 2000, 3, 0, 0)], hooks |-> {}, path |-> 0], [steps |-> [step_HMS_HMS |-> Sec(FALSE, 0, 4, 0, 0), step_merged |-> Sec(FALSE, 0, 5, 3, 0)], hooks |-> {}, path |-> 2]}
Hook(n, a, k) == [n |-> n, abs |-> a, kw |-> k]
HookSets == {{}, {Hook(1, FALSE, 0)}, {Hook(1, FALSE, 1)}, {Hook(1, TRUE, 0)}, {Hook(1, FALSE, 0), Hook(2, FALSE, 0)}, {Hook(1, FALSE, 2), Hook(2, TRUE, 0), Hook(3, FALSE, 0)},
             {Hook(2, FALSE, 0)}, {Hook(1, FALSE, 0), Hook(4, FALSE, 1)}, {Hook(9, TRUE, 1), Hook(10, FALSE, 0), Hook(11, FALSE, 2)}}
Ops == {[op |-> "load", z |-> 0], [op |-> "load", z |-> 10000], [op |-> "load", z |-> 1000], [op |-> "force", z |-> 1000], [op |-> "ini", s |-> "step_detached", z |-> 10000],
        [op |-> "one", s |-> "step_detached", c |-> Sec(FALSE, 0, 7, 0, 2), z |-> 10000], [op |-> "one", s |-> "step_merged", c |-> Sec(FALSE, 1000, 0, 4, 0), z |-> 0],
        [op |-> "one", s |-> "step_HMS_HMS", c |-> Sec(TRUE, 0, 8, 0, 0), z |-> 4500], [op |-> "one", s |-> "step_SN", c |-> Sec(FALSE, 0, 9, 0, 0), z |-> 1000]}
Loads == {o \in Ops : o.op = "load"}
Seqs == {<<a>> : a \in Ops} \cup {<<a, b>> : a, b \in Ops} \cup {<<a, b, d>> : a, d \in Loads, b \in Ops} \cup {<<a, b, d>> : a \in Loads, b, d \in Ops \ Loads}
Main == {[files |-> <<File(h, d, m, s)>>, over |-> [x \in {} |-> 0], ops |-> q, pops |-> 0] : h \in HMS, d \in Det, m \in Mer, s \in SN, q \in Seqs}
Side == {[files |-> <<[File(h, d, Plain, SNx) EXCEPT !.hooks = k, !.path = p]>> \o two, over |-> ov, ops |-> <<[op |-> "load", z |-> 4500]>>, pops |-> n] :
          h \in HMS, d \in {NoSec, Plain, Sec(FALSE, 1000, 0, 0, 0)}, SNx \in {NoSec}, k \in HookSets, p \in {0, 1}, two \in {<<>>} \cup {<<f>> : f \in File2},
          ov \in {[x \in {} |-> 0], [step_merged |-> Sec(FALSE, 2000, 6, 0, 0)]}, n \in 0..3}
Init == c \in Main \cup Side
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
