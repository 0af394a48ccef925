------------------------------ MODULE PopFileMC -----------------------------
(* Exports between two population files and formation channels, explored     *)
(* exhaustively: what the accepted operations imply for a file's contents.   *)
EXTENDS PopFile, TLC
CONSTANTS MaxOps
VARIABLES s, n, old, lastop
vars == <<s, n, old, lastop>>
Sys == << [ev |-> <<"ZAMS", "CC1", "redirect_from_ZAMS">>, cls |-> "stable_MT", mt |-> "Stable contact phase", met |-> 1000, tr |-> <<1, 2>>],
          [ev |-> <<"ZAMS", "">>, cls |-> "", mt |-> "", met |-> 100, tr |-> <<>>],
          [ev |-> <<"ZAMS">>, cls |-> "no_MT", mt |-> "", met |-> 1000, tr |-> <<5>>] >>
A0 == [sys |-> <<[ix |-> 2, id |-> 1], [ix |-> 0, id |-> 2], [ix |-> 5, id |-> 3]>>, met |-> TRUE,
       mpm |-> <<[met |-> 1000, mass |-> 10, n |-> 2], [met |-> 100, mass |-> 7, n |-> 1]>>]
Init == s = Fresh([sys |-> Sys, A |-> A0]) /\ n = 0 /\ old = s.f /\ lastop = "none"
Sels(f) == {q \in UNION {[1..k -> Ixs(f)] : k \in 1..2} : NoDup(q)}
Step(e) == /\ n < MaxOps /\ Clause(s, e) = "ok" /\ s' = Apply(s, e) /\ n' = n + 1 /\ old' = s.f
DoExport == \E src, dst \in {"A", "X"} : \E mode \in {"new", "overwrite", "append", "both"} :
              /\ src # dst /\ s.f[src].ex
              /\ \E sel \in Sels(s.f[src]) \cup {<<99>>} : \E err \in {"none", "FileExistsError"} :
                   /\ s.f[dst].ex /\ mode = "append" => s.f[dst].chan = s.f[src].chan
                   /\ Len(s.f[dst].sys) < 5
                   /\ Step([ev |-> "export", src |-> src, dst |-> dst, sel |-> sel, mode |-> mode, err |-> err])
                   /\ lastop' = IF err = "none" THEN mode ELSE "refused"
DoChannels == \E f \in {"A", "X"}, m \in {"plain", "mt"} :
              s.f[f].ex /\ Step([ev |-> "channels", file |-> f, mode |-> m, err |-> "none"]) /\ lastop' = "channels"
Next == DoExport \/ DoChannels
Spec == Init /\ [][Next]_vars
Files == {"A", "X"}
RECURSIVE SumN(_)
SumN(m) == IF m = {} THEN 0 ELSE LET x == CHOOSE x \in m : TRUE IN x.n + SumN(m \ {x})
UniqueIndices == \A f \in Files : Cardinality(Ixs(s.f[f])) = Len(s.f[f].sys)
CountsMatch == \A f \in Files : s.f[f].ex => /\ SumN(s.f[f].mpm) = Len(s.f[f].sys)
                                             /\ \A x \in s.f[f].mpm : x.n = CountMet(s, [i \in 1..Len(s.f[f].sys) |-> s.f[f].sys[i].id], x.met)
OneMassPerMetallicity == \A f \in Files : Cardinality(MetsIn(s.f[f].mpm)) = Cardinality(s.f[f].mpm)
AppendKeeps == \A f \in Files : (lastop = "append" /\ old[f].ex) => Len(s.f[f].sys) >= Len(old[f].sys) /\ SubSeq(s.f[f].sys, 1, Len(old[f].sys)) = old[f].sys
RefusedKeeps == lastop = "refused" => s.f = old
ExportKeepsSource == \E f \in Files : s.f[f] = old[f]
ChannelsAreOwn == \A f \in Files : s.f[f].chan # "no" => \A x \in Range(s.f[f].sys) : Channel(Sys[x.id], s.f[f].chan) \in
    {"ZAMS_oRLO1_CC1", "ZAMS_oRLO1-contact_CC1", "ZAMS"}
=============================================================================
