----------------------------- MODULE PSyGridGen -----------------------------
(* Pseudo-random runs, drawn inside the specification: script k is a grid of
   runs whose tables carry back-steps, missing rows, cuts and flags.          *)
EXTENDS PSyGrid, TLC, Json
CONSTANTS NScripts, NRuns
VARIABLE c

Lcg(x) == ((x * 171) + 11213) % 53125
ND == 170
Stream(k) == LET f[i \in 0..ND] == IF i = 0 THEN Lcg(Lcg((k * 7919 + 17) % 53125)) ELSE Lcg(f[i - 1])
             IN f
(* draw i of stream s among n values *)
D(s, i, n) == (s[i] \div 13) % n
Pick(s, i, q) == q[D(s, i, Len(q)) + 1]

Dm == <<1, 1, 1, 1, 1, 1, 2, 1, 0, -1, -2, 1, 1, 3, 1, 1>>
Dt == <<1, 1, 2, 1, 1, 3, 1, 1, 2, 1, 1, -1, 1, 0, 1, 1, 2>>
Vs == <<0, 1, 2, 3, 4>>                \* ranges of values divide 12

RECURSIVE Walk(_, _, _, _, _)
Walk(s, i, n, m, t) ==
  IF n = 0 THEN <<>>
  ELSE <<<<m, t>>>> \o Walk(s, i + 2, n - 1, m + Pick(s, i, Dm), t + Pick(s, i + 1, Dt))

Line(s, i) == D(s, i, 5) = 0          \* sometimes a straight table
Vals(s, i, n) ==
  LET raw == [j \in 1..n |-> Pick(s, i + j, Vs)]
      vs == raw
      bad == D(s, i + n + 1, 25)
  IN [j \in 1..n |-> IF bad = j /\ n > 2 THEN NaNv ELSE IF Line(s, i) THEN 2 ELSE vs[j]]

Stages(s, i, n) ==
  LET k1 == D(s, i, n + 3) + 1
      k2 == k1 + D(s, i + 1, 3) + (IF D(s, i + 2, 2) = 0 THEN 0 ELSE n)
      mid == Pick(s, i + 3, <<1, 1, 3>>)
  IN [j \in 1..n |-> IF j < k1 THEN 0 ELSE IF j < k2 THEN mid ELSE 2]

Fs(s, i, n) ==
  LET k == D(s, i, n + 2) + 1 IN
  [j \in 1..n |-> IF j < k THEN 0 ELSE Pick(s, i + j, <<1, 2, 3, 4, 0, 2, 0, 2>>)]

Run(k) ==
  LET s == Stream(k)
      n == D(s, 1, 7) + 1
      w == Walk(s, 2, n, 1, 1 + D(s, 20, 3))
      vb == Vals(s, 21, n)
      v1 == Vals(s, 32, n)
      v2 == Vals(s, 43, n)
      d1 == Stages(s, 54, n)
      d2 == Stages(s, 60, n)
      f == Fs(s, 66, n)
      star(v, d, o) ==
        LET full == [j \in 1..n |-> [m |-> w[j][1] + (IF D(s, o + j, 23) = 0 THEN 1 ELSE 0), t |-> w[j][2], f |-> 0, v |-> v[j], d |-> d[j], k |-> D(s, o + 8 + j, 9)]]
            Keep(x) == x.k # 0
        IN SelectSeq(full, Keep)
      strip(q) == [j \in 1..Len(q) |-> [m |-> q[j].m, t |-> q[j].t, f |-> 0, v |-> q[j].v, d |-> q[j].d]]
      miss == D(s, 120, 12)
      bh == [j \in 1..n |-> [m |-> w[j][1], t |-> w[j][2], f |-> f[j], v |-> vb[j], d |-> 0]]
  IN [bh |-> IF miss = 0 THEN <<>> ELSE bh,
      h1 |-> IF miss \in {1, 2} THEN <<>> ELSE strip(star(v1, d1, 76)),
      h2 |-> IF miss \in {2, 3, 4} THEN <<>> ELSE strip(star(v2, d2, 98)),
      big |-> D(s, 121, 2) = 0,
      out |-> Pick(s, 122, <<"cdep1", "cdep1", "maxmdot", "mintime", "overflow">>),
      prof |-> D(s, 123, 4) # 0,
      pm |-> [j \in 1..(D(s, 124, 6) + 1) |-> D(s, 124 + j, 3) + 1],      \* steps in mass, outwards
      pv |-> [j \in 1..(D(s, 124, 6) + 1) |-> Pick(s, 131 + j, Vs)]]

Script(k) ==
  LET s == Stream(50000 - k) IN
  [id |-> k, single |-> D(s, 1, 5) = 0, rlo |-> D(s, 2, 3) = 0 /\ D(s, 1, 5) # 0, stop |-> D(s, 3, 2) = 0,
   ds |-> D(s, 4, 4), pds |-> D(s, 5, 4), pint |-> D(s, 6, 3), hefix |-> D(s, 7, 3) # 0,
   cols |-> D(s, 8, 3), gz |-> D(s, 9, 8) = 0, slim |-> D(s, 10, 9) = 0, noprof |-> D(s, 11, 2) = 0,
   lazy |-> D(s, 12, 2) = 0,
   runs |-> [j \in 1..NRuns |-> Run((k - 1) * NRuns + j)]]

Init == c \in {Script(k) : k \in 1..NScripts}
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
