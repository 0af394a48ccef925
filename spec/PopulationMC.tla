----------------------------- MODULE PopulationMC ---------------------------
(* The ranks of a population run as concurrent processes that may be         *)
(* interrupted at any point (one interruption each) and started again, and a *)
(* merge process that starts when all ranks have finished.  Files become     *)
(* complete atomically (an interrupted write leaves nothing readable).       *)
EXTENDS Population
CONSTANTS MaxN, MaxSize, MaxDump
VARIABLES n, size, dump, nxt, mem, bat, comb, pc, crash, final, safe, mcrash
vars == <<n, size, dump, nxt, mem, bat, comb, pc, crash, final, safe, mcrash>>
Ranks == 0..(size - 1)
share(r) == Share(n, size, r)
OnDisk == UNION {UNION {SeqSet(bat[r][j]) : j \in DOMAIN bat[r]} \cup SeqSet(comb[r]) : r \in Ranks}
            \cup SeqSet(final)

Init == /\ n \in 1..MaxN /\ size \in 1..MaxSize /\ dump \in 1..MaxDump
        /\ size <= n
        /\ nxt = [r \in Ranks |-> 0] /\ mem = [r \in Ranks |-> <<>>]
        /\ bat = [r \in Ranks |-> <<>>] /\ comb = [r \in Ranks |-> <<>>]
        /\ pc = [r \in Ranks |-> "evolve"] /\ crash = [r \in Ranks |-> 0]
        /\ final = <<>> /\ safe = {} /\ mcrash = 0

Saved(f) == safe' = safe \cup f
(* evolve the next system; dump when due *)
Evolve(r) ==
    /\ pc[r] = "evolve" /\ nxt[r] < Len(share(r))
    /\ nxt' = [nxt EXCEPT ![r] = @ + 1]
    /\ mem' = [mem EXCEPT ![r] = Append(@, share(r)[nxt[r] + 1])]
    /\ pc' = [pc EXCEPT ![r] = IF nxt[r] % dump = 0 /\ nxt[r] # 0 THEN "dump" ELSE "evolve"]
    /\ UNCHANGED <<n, size, dump, bat, comb, crash, final, safe, mcrash>>
Dump(r) ==
    /\ pc[r] = "dump"
    /\ bat' = [bat EXCEPT ![r] = Append(@, mem[r])]
    /\ mem' = [mem EXCEPT ![r] = <<>>]
    /\ pc' = [pc EXCEPT ![r] = "evolve"]
    /\ Saved(SeqSet(mem[r]))
    /\ UNCHANGED <<n, size, dump, nxt, comb, crash, final, mcrash>>
Leftover(r) ==
    /\ pc[r] = "evolve" /\ nxt[r] = Len(share(r))
    /\ bat' = IF mem[r] = <<>> THEN bat ELSE [bat EXCEPT ![r] = Append(@, mem[r])]
    /\ mem' = [mem EXCEPT ![r] = <<>>]
    /\ pc' = [pc EXCEPT ![r] = "combine"]
    /\ Saved(SeqSet(mem[r]))
    /\ UNCHANGED <<n, size, dump, nxt, comb, crash, final, mcrash>>
Combine(r) ==
    /\ pc[r] = "combine"
    /\ comb' = [comb EXCEPT ![r] = Flat(bat[r])]
    /\ pc' = [pc EXCEPT ![r] = "clean"]
    /\ Saved(SeqSet(Flat(bat[r])))
    /\ UNCHANGED <<n, size, dump, nxt, mem, bat, crash, final, mcrash>>
Clean(r) ==
    /\ pc[r] = "clean"
    /\ IF bat[r] = <<>> THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED bat
       ELSE bat' = [bat EXCEPT ![r] = Tail(@)] /\ UNCHANGED pc
    /\ UNCHANGED <<n, size, dump, nxt, mem, comb, crash, final, safe, mcrash>>
(* interrupted and started again from the beginning; its files are rewritten *)
Crash(r) ==
    /\ crash[r] = 0 /\ pc[r] # "done"
    /\ crash' = [crash EXCEPT ![r] = 1]
    /\ nxt' = [nxt EXCEPT ![r] = 0] /\ mem' = [mem EXCEPT ![r] = <<>>]
    /\ bat' = [bat EXCEPT ![r] = <<>>] /\ comb' = [comb EXCEPT ![r] = <<>>]
    /\ pc' = [pc EXCEPT ![r] = "evolve"]
    /\ safe' = safe \ SeqSet(share(r))
    /\ UNCHANGED <<n, size, dump, final, mcrash>>
Merge ==
    /\ \A r \in Ranks : pc[r] = "done"
    /\ final = <<>>
    /\ final' = Flat([k \in 1..size |-> comb[k - 1]])
    /\ pc' = [r \in Ranks |-> "merged"]
    /\ UNCHANGED <<n, size, dump, nxt, mem, bat, comb, crash, safe, mcrash>>
Remove(r) ==
    /\ pc[r] = "merged" /\ comb[r] # <<>> /\ mcrash = 0
    /\ comb' = [comb EXCEPT ![r] = <<>>]
    /\ UNCHANGED <<n, size, dump, nxt, mem, bat, pc, crash, final, safe, mcrash>>
MergeCrash == /\ \E r \in Ranks : pc[r] = "merged"
              /\ mcrash = 0 /\ mcrash' = 1
              /\ UNCHANGED <<n, size, dump, nxt, mem, bat, comb, pc, crash, final, safe>>
Next == Merge \/ MergeCrash \/ \E r \in Ranks : Evolve(r) \/ Dump(r) \/ Leftover(r)
            \/ Combine(r) \/ Clean(r) \/ Crash(r) \/ Remove(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the shares partition the population *)
Partition == /\ UNION {SeqSet(share(r)) : r \in Ranks} = 0..(n - 1)
             /\ \A r, q \in Ranks : r # q => SeqSet(share(r)) \cap SeqSet(share(q)) = {}
Safe == safe \subseteq OnDisk
FinalExact == final # <<>> => /\ SeqSet(final) = 0..(n - 1) /\ NoDup(final)
MemBound == \A r \in Ranks : Len(mem[r]) <= dump + 1
Finishes == <>(final # <<>>)
=============================================================================
