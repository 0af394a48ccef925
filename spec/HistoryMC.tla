----------------------------- MODULE HistoryMC ------------------------------
(* Every interleaving of evolve / restore up to MaxOps operations; each      *)
(* evolution takes 1..MaxCalls steps with any outcome.                       *)
EXTENDS History, Json
CONSTANTS MaxOps, MaxCalls
VARIABLES s, ops, k
vars == <<s, ops, k>>

H == "H-rich_Core_H_burning"
Z == <<H, H, "detached", "ZAMS">>
Posts == {<<H, H, "detached", "redirect_from_ZAMS">>, <<H, H, "detached", "None">>,
          <<"BH", H, "detached", "None">>, <<"BH", H, "detached", "END">>}
Outs == {o \in [post : Posts, rows : {0, 2}, exc : {"none"}] :
             o.post[4] \in Redirects => o.rows = 0}
        \cup [post : {<<"BH", H, "detached", "None">>}, rows : {0}, exc : {"RuntimeError"}]
Ended(c) == c.post[4] = "END" \/ c.exc # "none"

Cfgs == [verbose : BOOLEAN, hooks : BOOLEAN, index : {7}]

Init == \E c \in Cfgs : s = Start(c, Z) /\ ops = <<>> /\ k = 0

(* an evolution in progress: last element of ops is the open evolve *)
Open == IF ops = <<>> THEN FALSE
        ELSE IF ops[Len(ops)].op # "evolve" THEN FALSE
        ELSE LET q == ops[Len(ops)].out IN
             IF q = <<>> THEN TRUE ELSE ~Ended(q[Len(q)]) /\ Len(q) < MaxCalls
Begin == /\ ~Open /\ Len(ops) < MaxOps /\ s.now.cur[4] # "END"
         /\ ops' = Append(ops, [op |-> "evolve", out |-> <<>>, i |-> 0])
         /\ s' = Hook(s) /\ UNCHANGED k
OneStep == /\ Open
           /\ \E o \in Outs :
                /\ s' = Step(s, [step |-> "step_x", post |-> o.post, k |-> k + 1, rows |-> o.rows, exc |-> o.exc])
                /\ ops' = [ops EXCEPT ![Len(ops)].out = Append(@, o)]
           /\ k' = k + 1
Back == /\ ~Open /\ Len(ops) < MaxOps
        /\ IF ops = <<>> THEN TRUE ELSE ops[Len(ops)].op = "evolve"
        /\ \E i \in 0..(Len(s.rows) - 1) :
             /\ s' = [Restore(s, i) EXCEPT !.aligned = TRUE]
             /\ ops' = Append(ops, [op |-> "restore", out |-> <<>>, i |-> i])
        /\ UNCHANGED k
Next == Begin \/ OneStep \/ Back
Spec == Init /\ [][Next]_vars

(***************************** properties ************************************)
Aligned == (s.hooked /\ s.aligned) => /\ Len(s.names) = Len(s.rows)
                                      /\ Len(s.times) = Len(s.rows)
                                      /\ Len(s.star) = Len(s.rows)
FirstRowKept == s.rows[1] = [k |-> 0, cur |-> Z]
LastCall(o) == o[Len(o)].out[Len(o[Len(o)].out)]
LastRowIsNow ==
    [][/\ (k' = k + 1 /\ LastCall(ops').exc = "none" /\ ~Silent(s, LastCall(ops')))
            => s'.rows[Len(s'.rows)] = s'.now
       /\ (Len(s'.rows) < Len(s.rows)) => s'.rows[Len(s'.rows)] = s'.now]_vars
NoRedirectRows == ~s.cfg.verbose => \A j \in 1..Len(s.rows) : s.rows[j].cur[4] \notin Redirects
(* rows are never rewritten, only appended or cut *)
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Immutable == [][PrefixOf(s.rows, s'.rows) \/ PrefixOf(s'.rows, s.rows)]_vars

Emit == (~Open /\ Len(ops) = MaxOps)
          => PrintT(<<"SCRIPT", ToJson([cfg |-> s.cfg, start |-> Z, ops |-> ops])>>)
=============================================================================
