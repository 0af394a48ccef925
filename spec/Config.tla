------------------------------- MODULE Config -------------------------------
(* How parameter files become the steps, hooks and grids of a simulation, and *)
(* what (re)loading steps does to them.                                       *)
(* Metallicities in 1/10000 of solar, 0 = not given; options 0 = not given.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Order == <<"step_HMS_HMS", "step_detached", "step_merged", "step_SN", "step_end">>
Steps == {Order[i] : i \in DOMAIN Order}
Zed == {"step_HMS_HMS", "step_detached", "step_merged"}        \* need a metallicity
Grid == {"step_HMS_HMS"}                                       \* need the path of a grid
Match == {"step_detached", "step_merged"}                      \* need a track matcher
Rnd == {"step_HMS_HMS", "step_detached", "step_SN"}            \* need the random numbers of the run
Solar == 10000
(* a section: [given, abs, z, opt, mm, lst]; a later file overrides single options *)
NoSec == [given |-> FALSE, abs |-> FALSE, z |-> 0, opt |-> 0, mm |-> 0, lst |-> 0]
Pick(a, b) == IF b # 0 THEN b ELSE a
Stack(a, b) == IF ~b.given THEN a ELSE [given |-> TRUE, abs |-> a.abs \/ b.abs, z |-> Pick(a.z, b.z), opt |-> Pick(a.opt, b.opt), mm |-> Pick(a.mm, b.mm), lst |-> Pick(a.lst, b.lst)]
RECURSIVE StackAll(_, _, _)
StackAll(files, s, k) == IF k = 0 THEN NoSec ELSE LET p == StackAll(files, s, k - 1) IN IF s \in DOMAIN files[k].steps THEN Stack(p, files[k].steps[s]) ELSE p
Final(files, over, s) == IF s \in DOMAIN over THEN over[s] ELSE StackAll(files, s, Len(files))

(* hooks in the order of their numbers                                        *)
RECURSIVE Sorted(_)
Sorted(hs) == IF hs = {} THEN <<>> ELSE LET m == CHOOSE h \in hs : \A g \in hs : h.n <= g.n IN <<m>> \o Sorted(hs \ {m})
AsSet(q) == {q[i] : i \in DOMAIN q}
Hooks(files) == LET f == AsSet(files[1].hooks) IN [i \in DOMAIN Sorted(f) |-> [abs |-> Sorted(f)[i].abs, kw |-> Sorted(f)[i].kw]]
Path(files) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN 0 ELSE Pick(P(k - 1), files[k].path) IN P(Len(files))

(* --- loading ------------------------------------------------------------------ *)
(* w: conf, path, loaded (step -> record), match (set of [z, s, mm, lst, id]), grids (set of z), nm (matchers made), ng (grids made) *)
Fresh0(files, over) == [conf |-> [s \in Steps |-> Final(files, over, s)], path |-> Path(files), files |-> files, loaded |-> [s \in {} |-> 0],
                        match |-> {}, grids |-> {}, nm |-> 0, ng |-> 0]
ZOf(c, z) == IF c.z # 0 THEN c.z ELSE IF z # 0 THEN z ELSE Solar
LoadOne(w, s, c, z) ==
    LET zz == IF s \in Zed THEN ZOf(c, z) ELSE 0
        old == {m \in w.match : m.z = zz /\ m.s = s}
        have == CHOOSE m \in old : TRUE
        isnew == s \in Match /\ old = {}
        retrain == s \in Match /\ old # {} /\ c.lst # 0 /\ c.lst # have.lst
        m == IF s \notin Match THEN [id |-> 0]
             ELSE IF isnew THEN [z |-> zz, s |-> s, mm |-> c.mm, lst |-> c.lst, id |-> w.nm + 1]
             ELSE [have EXCEPT !.mm = Pick(@, c.mm), !.lst = Pick(@, c.lst), !.id = IF retrain THEN w.nm + 1 ELSE @]
        match2 == IF s \notin Match THEN w.match ELSE {x \in w.match : x.s # s} \cup {m}
        gone == {x.z : x \in {y \in w.match : y.s = s}} \ {x.z : x \in match2}
        grids2 == IF s \notin Match THEN w.grids ELSE (w.grids \cup {zz}) \ gone
        ng2 == w.ng + (IF s \in Match /\ zz \notin w.grids THEN 2 ELSE 0)
        rec == [z |-> zz, path |-> IF s \in Grid THEN w.path ELSE -1, opt |-> c.opt, abs |-> c.abs, rng |-> s \in Rnd, match |-> m.id]
    IN [w EXCEPT !.loaded = [t \in DOMAIN @ \cup {s} |-> IF t = s THEN rec ELSE @[t]], !.match = match2, !.grids = grids2, !.nm = IF isnew \/ retrain THEN @ + 1 ELSE @, !.ng = ng2]
RECURSIVE LoadFrom(_, _, _)
LoadFrom(w, z, i) == IF i > Len(Order) THEN w ELSE LoadFrom(IF w.conf[Order[i]].given THEN LoadOne(w, Order[i], w.conf[Order[i]], z) ELSE w, z, i + 1)
Given(w) == {s \in Steps : w.conf[s].given}
Do(w, o) ==
    CASE o.op = "load" -> LoadFrom(w, o.z, 1)
      [] o.op = "one" -> LoadOne(w, o.s, o.c, o.z)
      [] o.op = "ini" -> IF w.files[1].steps[o.s].given THEN LoadOne(w, o.s, w.files[1].steps[o.s], o.z) ELSE w
      [] o.op = "force" -> [w EXCEPT !.conf = [s \in Steps |-> IF s \in Zed THEN [@[s] EXCEPT !.z = o.z] ELSE @[s]]]
      [] OTHER -> w
AllLoaded(w) == DOMAIN w.loaded # {} /\ Given(w) \subseteq DOMAIN w.loaded

(* --- replay ------------------------------------------------------------------- *)
Fresh(e) == Fresh0(e.files, e.over)
Clause(w, e) ==
    CASE e.ev = "start" ->
           (IF e.err # "none" THEN "the parameter file is not accepted"
            ELSE IF e.hooks # Hooks(e.files) THEN "the hooks are not those of the file"
            ELSE IF e.path # Path(e.files) THEN "the path of a grid is not that of the file"
            ELSE IF AsSet(e.given) # {s \in Steps : Final(e.files, e.over, s).given} THEN "the steps are not those of the file"
            ELSE "ok")
      [] e.ev = "op" ->
           LET v == Do(w, e.o) IN
           (CASE e.err # "none" -> "the steps cannot be loaded"
              [] e.alive # TRUE -> "the configuration handed over was changed"
              [] AsSet(e.names) # DOMAIN v.loaded -> "other steps than the configured ones are loaded"
              [] \E i \in DOMAIN e.names : e.steps[i].z # v.loaded[e.names[i]].z -> "a step has the wrong metallicity"
              [] \E i \in DOMAIN e.names : e.steps[i].path # v.loaded[e.names[i]].path -> "a step has the wrong grid"
              [] \E i \in DOMAIN e.names : e.steps[i].opt # v.loaded[e.names[i]].opt -> "a step lost or gained an option"
              [] \E i \in DOMAIN e.names : e.steps[i].abs # v.loaded[e.names[i]].abs -> "a step is of the wrong class"
              [] \E i \in DOMAIN e.names : e.steps[i].rng # v.loaded[e.names[i]].rng -> "a step does not use the random numbers of the run"
              [] \E i \in DOMAIN e.names : e.steps[i].match # v.loaded[e.names[i]].match -> "a step has the wrong track matcher"
              [] AsSet(e.match) # v.match -> "a track matcher is not set up as configured"
              [] AsSet(e.grids) # v.grids \/ e.nm # v.nm \/ e.ng # v.ng -> "grids or matchers are kept, lost or loaded again needlessly"
              [] e.loaded # AllLoaded(v) -> "whether all steps are loaded is misreported"
              [] OTHER -> "ok")
      [] e.ev = "runner" ->
           (* one population per metallicity, each with its own steps             *)
           (IF e.err # "none" THEN "a population cannot be set up from the file"
            ELSE IF e.zs # e.want THEN "the populations are not those of the file"
            ELSE IF \E i \in DOMAIN e.zs : \E j \in DOMAIN e.pops[i] : e.pops[i][j].z # e.zs[i] THEN "a population has a step of another metallicity"
            ELSE IF \E i \in DOMAIN e.zs : {e.pops[i][j].s : j \in DOMAIN e.pops[i]} # {s \in Zed : Final(e.files, e.over, s).given} THEN "a population lacks a step"
            ELSE "ok")
      [] e.ev = "pop" -> IF e.err # "none" THEN "the population options are not accepted" ELSE IF e.got # e.want THEN "a population option is not that of the file" ELSE "ok"
      [] OTHER -> "unexpected failure"
Apply(w, e) == IF e.ev = "op" THEN Do(w, e.o) ELSE w
=============================================================================
