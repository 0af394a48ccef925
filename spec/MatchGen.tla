------------------------------ MODULE MatchGen ------------------------------
(* Pseudo-random pairs for the real optimisers, and answers for a scripted   *)
(* one.                                                                      *)
EXTENDS Match, TLC, Json
CONSTANTS NPairs, NTries
VARIABLE c
Lcg(x) == ((x * 171) + 11213) % 53125
Stream(k) == LET f[i \in 0..40] == IF i = 0 THEN Lcg(Lcg(Lcg((k * 7919 + 171) % 53125))) ELSE Lcg(f[i - 1]) IN f
D(s, i, n) == (s[i] \div 13) % n
Pick(s, i, q) == q[D(s, i, Len(q)) + 1]
Star(s, o, kind, at) == [kind |-> kind, i |-> D(s, o, 12), n |-> D(s, o + 1, 7), at |-> at, spin |-> Pick(s, o + 3, <<"J", "J", "w", "ratio", "none">>),
                         j |-> CASE kind = "HMS" -> D(s, o + 2, 6) [] kind = "HPM" -> 7 + D(s, o + 2, 3) [] OTHER -> D(s, o + 2, 10)]
Kind(s, o) == Pick(s, o, <<"HMS", "HMS", "HMS", "HPM", "HPM", "HPM", "HeMS", "HeMS", "HePM", "HePM", "BH", "NS", "WD", "gone", "odd">>)
At(s, o) == Pick(s, o, <<"node", "node", "node", "node", "mid", "mid", "swollen", "swollen", "heavy">>)
One == [d |-> 1, ok |-> TRUE, err |-> FALSE]
Pair(n) ==
  LET s == Stream(n)
      k1 == Kind(s, 1)
      k2 == IF k1 \in Stars THEN Kind(s, 2) ELSE IF D(s, 2, 4) = 0 THEN Kind(s, 3) ELSE Pick(s, 2, <<"HMS", "HPM", "HeMS", "HePM">>)
      h == {k1, k2} \cap HeRich = {}
      root == h /\ D(s, 4, 3) = 0
      place(x) == IF root /\ x = "heavy" THEN "node" ELSE x
  IN [mode |-> IF root THEN "root" ELSE "lib", id |-> n, s1 |-> Star(s, 5, k1, place(At(s, 10))), s2 |-> Star(s, 15, k2, place(At(s, 20))),
      event |-> Pick(s, 25, <<"none", "none", "none", "none", "ZAMS", "redirect_from_ZAMS">>), rec |-> D(s, 26, 2) = 0,
      which |-> IF D(s, 27, 5) = 0 THEN "sec" ELSE "both", soft |-> 10, hard |-> 100, tries |-> <<One>>]
Answer(s, o) == [d |-> Pick(s, o, <<1, 4, 20, 50, 51, 90, 200, 300, -1>>), ok |-> D(s, o + 5, 4) # 0, err |-> D(s, o + 10, 23) = 0]
Tries(n) ==
  LET s == Stream(n + 31337)
      kind == Pick(s, 1, <<"HMS", "HPM", "HeMS", "HePM">>)
      x == Star(s, 5, kind, "node")
      y == Star(s, 9, Pick(s, 2, <<"BH", "NS", "gone">>), "node")
  IN [mode |-> "try", id |-> n, s1 |-> IF D(s, 3, 2) = 0 THEN x ELSE y, s2 |-> IF D(s, 3, 2) = 0 THEN y ELSE x, event |-> "none", rec |-> D(s, 4, 2) = 0,
      which |-> "both", soft |-> Pick(s, 14, <<10, 10, 60>>), hard |-> Pick(s, 15, <<100, 100, 250>>), tries |-> [i \in 1..4 |-> Answer(s, 15 + i)]]
Init == c \in {Pair(n) : n \in 1..NPairs} \/ c \in {Tries(n) : n \in 1..NTries}
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
