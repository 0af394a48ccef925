------------------------------- MODULE RatesMC ------------------------------
(* Orders of weighting, rates and re-selections, explored exhaustively: what *)
(* is in the file always belongs to the events that are in the file.         *)
EXTENDS Rates, TLC
CONSTANT MaxOps
VARIABLES s, n, made
vars == <<s, n, made>>
Evs == <<[id |-> 1, ix |-> 4, j |-> 1, delay |-> 5, met |-> 1000, ch |-> "a"], [id |-> 1, ix |-> 4, j |-> 2, delay |-> 9000, met |-> 1000, ch |-> "b"]>>
(* made: for every stored result, the generation of events it was made from, *)
(* and for a density the weights it was made from                            *)
Init == s = Fresh([evs |-> Evs, mets |-> <<1000>>, age |-> 13800000]) /\ n = 0 /\ made = [gen |-> 0, mw |-> {}, rt |-> {}, dn |-> {}]
Step(e) == n < MaxOps /\ s' = Apply(s, e) /\ n' = n + 1
Cosmic(h, i, m) == LET e == [ev |-> "cosmic", sfh |-> h, id |-> i, model |-> m, err |-> IF Mw(s, i) = {} THEN "ValueError" ELSE "none"] IN
    /\ Step(e)
    /\ made' = IF e.err = "none" THEN [made EXCEPT !.rt = {x \in @ : x.sfh # h} \cup {[sfh |-> h, gen |-> made.gen, at |-> n]}, !.dn = {x \in @ : x.sfh # h}] ELSE made
Next == \/ \E i \in {"A", "B"}, p \in {"same", "power"} : Step([ev |-> "weights", id |-> i, par |-> p, err |-> "none"])
              /\ made' = [made EXCEPT !.mw = {x \in @ : x.id # i} \cup {[id |-> i, gen |-> made.gen, par |-> p]}]
        \/ \E h \in {"S", "R"}, i \in {"A", "B"}, m \in {"mf17", "nei"} : Cosmic(h, i, m)
        \/ \E h \in {"S", "R"} : Rt(s, h) # {} /\ Step([ev |-> "density", sfh |-> h, ch |-> FALSE, err |-> "none"])
              /\ made' = [made EXCEPT !.dn = {x \in @ : x.sfh # h} \cup {[sfh |-> h, at |-> (CHOOSE x \in made.rt : x.sfh = h).at]}]
        \/ \E h \in {"S", "R"} : Rt(s, h) # {} /\ Step([ev |-> "observe", sfh |-> h, obs |-> "x", err |-> "none"]) /\ UNCHANGED made
        \/ \E b \in BOOLEAN : Step([ev |-> "recreate", half |-> b]) /\ made' = [gen |-> made.gen + 1, mw |-> {}, rt |-> {}, dn |-> {}]
Spec == Init /\ [][Next]_vars
(* every stored result was made from the events now in the file              *)
Current == /\ {x.id : x \in s.mw} = {x.id : x \in made.mw} /\ \A x \in made.mw : x.gen = made.gen
           /\ {x.sfh : x \in s.rates} = {x.sfh : x \in made.rt} /\ \A x \in made.rt : x.gen = made.gen
(* a stored density was made from the stored weights                         *)
DensityOfCurrentWeights == \A x \in s.rates : x.dens => \E y \in made.dn : y.sfh = x.sfh /\ \E z \in made.rt : z.sfh = x.sfh /\ z.at = y.at
DensityOnlyThere == \A y \in made.dn : \E x \in s.rates : x.sfh = y.sfh /\ x.dens
OnePerName == (\A x, y \in s.mw : x.id = y.id => x = y) /\ (\A x, y \in s.rates : x.sfh = y.sfh => x = y)
KeysFaithful == \A x \in s.rates : ("/rates/" \o x.sfh \o "/intrinsic_rate_density" \in Keys(s)) = x.dens
Empty == (s.mw = {} => s.rates = {}) /\ (s.rates = {} => s.obs = {})
=============================================================================
