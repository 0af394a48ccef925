------------------------------ MODULE ConfigMC ------------------------------
(* Loading, reloading and forcing a metallicity in any order.                 *)
EXTENDS Config, TLC
CONSTANT MaxM
VARIABLES w, last
Sec(a, z, o, m, l) == [given |-> TRUE, abs |-> a, z |-> z, opt |-> o, mm |-> m, lst |-> l]
Plain == Sec(FALSE, 0, 0, 0, 0)
File(h, d, m) == [steps |-> [step_HMS_HMS |-> h, step_detached |-> d, step_merged |-> m, step_SN |-> NoSec, step_end |-> Plain], hooks |-> <<>>, path |-> 0]
Files == {<<File(h, d, m)>> : h \in {NoSec, Sec(FALSE, 1000, 1, 0, 0)}, d \in {NoSec, Plain, Sec(FALSE, 1000, 0, 1, 1)}, m \in {NoSec, Plain, Sec(FALSE, 0, 0, 2, 0)}}
Ops == {[op |-> "load", z |-> z] : z \in {0, 1000}} \cup {[op |-> "force", z |-> z] : z \in {1000, 10000}} \cup {[op |-> "ini", s |-> "step_detached", z |-> 10000]}
       \cup {[op |-> "one", s |-> s, c |-> Sec(FALSE, z, 7, 0, l), z |-> 10000] : s \in Match, z \in {0, 1000}, l \in {0, 2}}
None == [op |-> "none", z |-> 0]
Init == \E f \in Files : w = Fresh0(f, [x \in {} |-> 0]) /\ last = None
Next == \E o \in Ops : w' = Do(w, o) /\ last' = o
Spec == Init /\ [][Next]_<<w, last>>
Bound == w.nm <= MaxM
(* one matcher per step, of the metallicity of the step, and no grid too many *)
OneEach == /\ \A a, b \in w.match : a.s = b.s => a = b
           /\ \A s \in DOMAIN w.loaded : s \in Match => \E m \in w.match : m.s = s /\ m.z = w.loaded[s].z /\ m.id = w.loaded[s].match
           /\ w.grids = {m.z : m \in w.match}
           /\ Cardinality(w.grids) <= Cardinality(Match)
(* loading all steps gives all and only the metallicities asked for           *)
AsAsked == last.op = "load" =>
            /\ AllLoaded(w)
            /\ \A s \in Zed \cap DOMAIN w.loaded : w.conf[s].given => w.loaded[s].z = ZOf(w.conf[s], last.z)
(* after a population fixed the metallicity, a reload leaves no other one     *)
Forced == \A z \in {1000, 10000} : (\A s \in Zed : w.conf[s].z = z) /\ last.op = "load" => \A s \in Zed \cap Given(w) : w.loaded[s].z = z
(* loading twice in a row changes nothing more                                *)
Idempotent == \A z \in {0, 1000} : LET v == LoadFrom(w, z, 1) IN LoadFrom(v, z, 1) = v
=============================================================================
