----------------------------- MODULE DetachedGen ----------------------------
(* Pseudo-random detached binaries (events) and every combination of the     *)
(* orbital processes (physics).                                              *)
EXTENDS Detached, TLC, Json
CONSTANTS NScripts, Draws
VARIABLE c
Lcg(x) == ((x * 171) + 11213) % 53125
Stream(k) == LET f[i \in 0..40] == IF i = 0 THEN Lcg(Lcg(Lcg((k * 7919 + 171) % 53125))) ELSE Lcg(f[i - 1]) IN f
D(s, i, n) == (s[i] \div 13) % n
Pick(s, i, q) == q[D(s, i, Len(q)) + 1]
(* how long a star has been on its track; where it is now is r               *)
Aged(st, n) == IF st.kind \in Stellar /\ st.r > st.k * n + 10 THEN [kind |-> st.kind, m |-> st.m, T |-> st.T, r |-> st.r, k |-> st.k, age |-> n]
               ELSE [kind |-> st.kind, m |-> st.m, T |-> st.T, r |-> st.r, k |-> st.k, age |-> 0]
Star(s, o, kind) == [kind |-> kind, m |-> Pick(s, o, <<1, 2, 4, 8>>),
                     T |-> IF kind \in Stellar THEN 3 + D(s, o + 1, 40) ELSE 0,
                     r |-> IF kind \in Stellar THEN Pick(s, o + 2, <<50, 100, 200, 300, 700, 1500>>) ELSE 0,
                     k |-> IF kind \in Stellar THEN Pick(s, o + 3, <<0, 0, 7, 20, 50, 110, 190>>) ELSE 0]
Script(n) ==
  LET s == Stream(n)
      k1 == Pick(s, 1, <<"H", "H", "H", "He", "He", "BH", "NS", "WD", "gone">>)
      k2 == IF k1 \in Stellar THEN Pick(s, 2, <<"H", "H", "He", "BH", "NS", "WD", "gone">>) ELSE Pick(s, 2, <<"H", "He">>)
      old == D(s, 24, 2) = 0
      a == Aged(Star(s, 3, k1), IF old THEN Pick(s, 22, <<0, 1, 4, 13>>) ELSE 0)
      b == Aged(Star(s, 8, k2), IF old THEN Pick(s, 23, <<0, 2, 5, 13>>) ELSE 0)
      twin == a.kind = b.kind /\ a.m = b.m
  IN [what |-> "events", id |-> n, s1 |-> a, s2 |-> IF twin THEN a ELSE b, a |-> Pick(s, 13, <<8, 15, 25, 40, 60, 100>>),
      e |-> Pick(s, 14, <<0, 0, 2, 6, 10, 15>>), max |-> Pick(s, 15, <<2, 9, 17, 33, 60>>), t0 |-> Pick(s, 16, <<0, 0, 4, 31>>),
      how |-> Pick(s, 17, <<"none", "n", "dt", "dt">>), hist |-> Pick(s, 18, <<1, 2, 3, 4, 7, 25>>),
      am |-> D(s, 19, 3) = 0, rlo |-> D(s, 20, 4) # 0, disrupted |-> D(s, 21, 12) = 0]
All == <<"wind", "tides", "gr", "mb", "spin">>
Sel(S) == SelectSeq(All, LAMBDA x : x \in S)
Sets == {{}, {"wind"}, {"tides"}, {"gr"}, {"mb"}, {"spin"}, {"wind", "spin"}, {"tides", "spin"}, {"mb", "spin"}, {"wind", "gr"},
         {"tides", "mb"}, {"wind", "tides", "gr", "mb", "spin"}}
Modes(S) == IF "mb" \in S THEN {"RVJ83", "M15", "G18", "CARB", "none"} ELSE {"RVJ83"}
Phys == UNION {[what : {"phys"}, on : {Sel(S)}, mode : Modes(S), p1 : {"H", "He"}, p2 : {"H", "He", "BH"}, d : 1..Draws] : S \in Sets}
Init == c \in {Script(n) : n \in 1..NScripts} \/ c \in Phys
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
