----------------------------- MODULE Evolution ------------------------------
(* The evolution loop of one binary (BinaryStar.evolve / run_step), with the *)
(* hook protocol of SimulationProperties.  One action per observable event:  *)
(* a hook call, a step call, the return (or exception) of evolve.            *)
(*                                                                           *)
(* s.cfg  : [verbose, maxn, endEvents, endStates, nhooks, chart, late]       *)
(*                                                                           *)
(* s.ph   : where the loop is: "preE" / "top" / "preS" / "call" / "postS" /  *)
(*          "postE" / "out" / "over"                                         *)
(* s.h    : next hook to be called in this phase                             *)
(* s.cur  : <<state of star 1, state of star 2, binary state, event>>        *)
(* s.n    : steps taken;  s.len : rows in the history                        *)
(* s.exc  : exception evolve has to end with ("none" for a normal return)    *)
EXTENDS FlowChart

RedirectEvents == {"redirect_from_ZAMS", "redirect_from_CO_HMS_RLO",
                   "redirect_from_CO_HeMS", "redirect_from_CO_HeMS_RLO"}
Undefined == UndefinedStates

Range(q) == {q[i] : i \in 1..Len(q)}

Terminal(cfg, cur) == \/ cur[4] \in {"END", "FAILED"}
                      \/ cur[4] \in Range(cfg.endEvents)
                      \/ cur[3] \in Range(cfg.endStates)

(* a small user-supplied flow chart used besides the default one *)
H == "H-rich_Core_H_burning"
He == "stripped_He_Core_He_burning"
K0 == <<H, H, "detached", "ZAMS">>
K1 == <<H, H, "detached", "redirect_from_ZAMS">>
K2 == <<H, H, "detached", "None">>
K3 == <<"BH", He, "detached", "None">>
K4 == <<"BH", "BH", "disrupted", "None">>
K5 == <<H, H, "RLO1", "oCE1">>           \* maps to a step that is not loaded
KX == <<H, "NS", "merged", "nonsense">>  \* not in the chart
KU == <<"NS", H, "detached", "CC2">>     \* known undefined state
KR == <<"BH", He, "detached", "redirect_from_CO_HeMS">>
KEv == <<"BH", He, "RLO2", "CC1">>       \* in endEvents of some configurations
KSt == <<"BH", He, "contact", "oRLO2">>  \* in endStates of some configurations
KEnd == <<"BH", "NS", "detached", "END">>
KFail == <<"BH", He, "detached", "FAILED">>
TestChart ==
    << K0 \o <<"step_HMS_HMS">>, K1 \o <<"step_detached">>, K2 \o <<"step_detached">>,
       K3 \o <<"step_CO_HeMS">>, K4 \o <<"step_end">>, K5 \o <<"step_absent">>,
       KR \o <<"step_detached">>, KEv \o <<"step_SN">>, KSt \o <<"step_CO_HMS_RLO">>,
       KU \o <<"step_SN">> >>
AllSteps == {"step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO",
             "step_detached", "step_disrupted", "step_merged",
             "step_initially_single", "step_dco", "step_SN", "step_CE", "step_end"}

StepOf(cfg, cur) ==
    IF cfg.chart = "default" THEN NextStep(cur[1], cur[2], cur[3], cur[4])
    ELSE LET r == {i \in 1..Len(TestChart) : SubSeq(TestChart[i], 1, 4) = cur} IN
         IF r = {} THEN "none" ELSE TestChart[CHOOSE i \in r : TRUE][5]

Silent(cfg, cur) == ~cfg.verbose /\ cur[4] \in RedirectEvents

(* What the loop has to do at its top, given the current total state. *)
Decide(cfg, cur) ==
    IF Terminal(cfg, cur) THEN "finish"
    ELSE IF cur \in Undefined THEN "FlowError"
    ELSE IF StepOf(cfg, cur) = "none" THEN "ValueError"
    ELSE IF StepOf(cfg, cur) \notin AllSteps THEN "ValueError"
    ELSE "step"

(* Canonical form: skip phases without hooks, resolve the loop top. *)
AtTop(s) ==
    LET d == Decide(s.cfg, s.cur) IN
    IF d = "finish" THEN
        IF s.cfg.nhooks = 0 THEN [s EXCEPT !.ph = "out", !.exc = "none"]
        ELSE [s EXCEPT !.ph = "postE", !.h = 1]
    ELSE IF d = "step" THEN
        IF s.cfg.nhooks = 0 THEN [s EXCEPT !.ph = "call"]
        ELSE [s EXCEPT !.ph = "preS", !.h = 1]
    ELSE [s EXCEPT !.ph = "out", !.exc = d]

AfterStep(s) ==
    IF s.cfg.maxn >= 0 /\ s.n > s.cfg.maxn
    THEN [s EXCEPT !.ph = "out", !.exc = "RuntimeError"]
    ELSE AtTop(s)

AfterPreE(s) == IF s.cfg.late THEN [s EXCEPT !.ph = "out", !.exc = "ValueError"]
                ELSE AtTop(s)

Start(cfg, cur) ==
    LET s0 == [cfg |-> cfg, ph |-> "preE", h |-> 1, cur |-> cur, n |-> 0,
               len |-> 1, exc |-> "none"] IN
    IF cfg.nhooks = 0 THEN AfterPreE(s0) ELSE s0

HookPhase(ph) == CASE ph = "preE" -> "pre_evolve" [] ph = "preS" -> "pre_step"
                   [] ph = "postS" -> "post_step" [] ph = "postE" -> "post_evolve"
                   [] OTHER -> "nothing"

(***************************** events ***************************************)
HookClause(s, e) ==
    IF HookPhase(s.ph) # e.phase THEN
        IF e.phase = "post_step" THEN "post-step hook called where the protocol has none (redirect, exception, or twice)"
        ELSE IF e.phase = "post_evolve" THEN "post-evolve hook called although evolution had not finished"
        ELSE "hook called out of order"
    ELSE IF e.hook # s.h THEN "hooks not called in registration order"
    ELSE IF e.phase \in {"pre_step", "post_step"} /\ e.step # (IF e.phase = "pre_step" THEN StepOf(s.cfg, s.cur) ELSE s.last)
         THEN "hook told a step name that is not the step taken"
    ELSE IF e.cur # s.cur THEN "hook sees a total state other than the current one"
    ELSE IF e.len # s.len THEN "hook sees a history that does not match the steps taken"
    ELSE "ok"

HookApply(s, e) ==
    IF s.h < s.cfg.nhooks THEN [s EXCEPT !.h = @ + 1]
    ELSE CASE s.ph = "preE" -> AfterPreE(s)
           [] s.ph = "preS" -> [s EXCEPT !.ph = "call"]
           [] s.ph = "postS" -> AfterStep(s)
           [] s.ph = "postE" -> [s EXCEPT !.ph = "out", !.exc = "none"]

CallClause(s, e) ==
    IF s.ph = "out" \/ s.ph = "postE" THEN "a step is taken although the evolution must have stopped"
    ELSE IF s.ph # "call" THEN "a step is taken before the hooks of its phase"
    ELSE IF e.pre # s.cur THEN "the step starts from a total state other than the current one"
    ELSE IF e.step # StepOf(s.cfg, s.cur) THEN "the step taken is not the one the flow chart gives for the total state"
    ELSE IF ~e.armed THEN "the time budget of the step is not (freshly) armed"
    ELSE "ok"

CallApply(s, e) ==
    IF e.exc # "none" THEN [s EXCEPT !.ph = "out", !.exc = e.exc, !.cur = e.post, !.len = @ + e.rows]
    ELSE LET quiet == Silent(s.cfg, e.post)
             t == [cfg |-> s.cfg, ph |-> "postS", h |-> 1, cur |-> e.post, n |-> s.n + 1,
                   len |-> s.len + e.rows + (IF quiet THEN 0 ELSE 1), exc |-> "none",
                   last |-> e.step]
         IN IF quiet \/ s.cfg.nhooks = 0 THEN AfterStep(t) ELSE t

EndClause(s, e) ==
    IF s.ph # "out" THEN
        IF e.exc # "none" THEN "evolution raised although a step, a hook or a return was due"
        ELSE "evolution returned although a step or a hook was due"
    ELSE IF e.exc # s.exc THEN
        (IF s.exc = "none" THEN "evolution raised although the binary had ended"
         ELSE IF e.exc = "none" THEN "evolution returned normally although it must raise"
         ELSE "evolution raised the wrong kind of error")
    ELSE IF e.cur # s.cur THEN "total state changed outside a step"
    ELSE IF e.len # s.len THEN "history rows do not match the steps taken"
    ELSE IF e.alarm THEN "the step timer is still armed after the evolution"
    ELSE "ok"

Clause(s, e) ==
    CASE e.ev = "hook" -> HookClause(s, e)
      [] e.ev = "call" -> CallClause(s, e)
      [] e.ev = "end"  -> EndClause(s, e)
      [] e.ev = "again" -> IF s.ph = "over" THEN "ok" ELSE "evolve called again too early (driver)"
      [] OTHER -> "unexpected exception escaped the public call"

Apply(s, e) ==
    CASE e.ev = "hook" -> HookApply(s, e)
      [] e.ev = "call" -> CallApply(s, e)
      [] e.ev = "end"  -> [s EXCEPT !.ph = "over"]
      [] e.ev = "again" -> [Start(s.cfg, s.cur) EXCEPT !.len = s.len]
      [] OTHER -> s

Fresh(e) == Start(e.cfg, e.cur)
=============================================================================
