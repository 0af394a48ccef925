---------------------------- MODULE EvolutionMC -----------------------------
(* Exhaustive exploration of the loop over every script of step outcomes up  *)
(* to MaxScript, every configuration below; prints each maximal script as a  *)
(* behaviour to be replayed into the real code.                              *)
EXTENDS Evolution, Integers, Json
CONSTANTS MaxScript
VARIABLES s, script

Cfg(v, m, ee, es, nh, late) ==
    [verbose |-> v, maxn |-> m, endEvents |-> ee, endStates |-> es,
     nhooks |-> nh, chart |-> "test", late |-> late]

Cfgs == {Cfg(v, m, ee, es, nh, FALSE) : v \in BOOLEAN, m \in {1, 2, 100},
            ee \in {<<>>, <<"CC1">>}, es \in {<<>>}, nh \in {2}}
        \cup {Cfg(v, m, <<>>, <<"contact">>, nh, FALSE) : v \in {FALSE}, m \in {0, -1}, nh \in {0, 1}}
        \cup {Cfg(FALSE, 100, <<>>, <<>>, 2, TRUE)}
        \cup {Cfg(FALSE, 2, <<"CC1", "oRLO1">>, <<"contact", "merged">>, 3, FALSE)}

Starts == {K0, K3, KU, KX, KEnd, K5}

Outcomes == [post : {K0, K1, K2, K3, K4, K5, KX, KU, KR, KEv, KSt, KEnd, KFail}, rows : {0}, exc : {"none"}]
            \cup [post : {K2, KEnd, KR}, rows : {2}, exc : {"none"}]
            \cup [post : {K3}, rows : {0}, exc : {"RuntimeError", "KeyError"}]

Init == \E c \in Cfgs, k \in Starts : s = Start(c, k) /\ script = [cfg |-> c, start |-> k, out |-> <<>>]

CallEv(o) == [ev |-> "call", step |-> StepOf(s.cfg, s.cur), pre |-> s.cur, post |-> o.post,
              rows |-> o.rows, exc |-> o.exc, armed |-> TRUE]
HookEv == [ev |-> "hook", phase |-> HookPhase(s.ph), hook |-> s.h, cur |-> s.cur, len |-> s.len,
           step |-> IF s.ph = "preS" THEN StepOf(s.cfg, s.cur) ELSE IF s.ph = "postS" THEN s.last ELSE "-"]
EndEv == [ev |-> "end", exc |-> s.exc, cur |-> s.cur, len |-> s.len, alarm |-> FALSE]

Do(e) == Clause(s, e) = "ok" /\ s' = Apply(s, e)

Next == \/ /\ s.ph \in {"preE", "preS", "postS", "postE"}
           /\ Do(HookEv) /\ UNCHANGED script
        \/ /\ s.ph = "call" /\ Len(script.out) < MaxScript
           /\ \E o \in Outcomes : Do(CallEv(o)) /\ script' = [script EXCEPT !.out = Append(@, o)]
        \/ /\ s.ph = "out" /\ Do(EndEv) /\ UNCHANGED script
        \/ /\ s.ph = "over" /\ UNCHANGED <<s, script>>

Spec == Init /\ [][Next]_<<s, script>>

(***************************** properties ************************************)
Bounded == s.cfg.maxn >= 0 => s.n <= s.cfg.maxn + 1
StopsAtEnd == s.ph \in {"preS", "call"} => ~Terminal(s.cfg, s.cur)
NeverUndefined == s.ph \in {"preS", "call"} => s.cur \notin Undefined
OnlyKnownSteps == s.ph \in {"preS", "call"} => StepOf(s.cfg, s.cur) \in AllSteps
NormalReturnIsTerminal == (s.ph = "out" /\ s.exc = "none") => Terminal(s.cfg, s.cur)
RowsAccounted == s.len >= 1 /\ s.len <= 1 + 3 * Len(script.out)
LateNeverSteps == s.cfg.late => s.n = 0

ASSUME PrintT(<<"CHART", ToJson(TestChart)>>)
Emit == (s.ph = "over" \/ (s.ph = "call" /\ Len(script.out) = MaxScript))
            => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
