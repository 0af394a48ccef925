----------------------------- MODULE GridFileGen -----------------------------
EXTENDS GridFile, TLC, Json
CONSTANTS NScripts
VARIABLE c
Lcg(x) == ((x * 171) + 11213) % 53125
Stream(k) == LET f[i \in 0..70] == IF i = 0 THEN Lcg(Lcg(Lcg((k * 7919 + 171) % 53125))) ELSE Lcg(f[i - 1]) IN f
D(s, i, n) == (s[i] \div 13) % n
Pick(s, i, q) == q[D(s, i, Len(q)) + 1]
Runs(s, g) ==
  LET o == 8 + 12 * g
      n == D(s, o, 3) + 1
      p0 == D(s, o + 1, 8)
      st == D(s, o + 2, 3) + 1
  IN [j \in 1..n |-> [u |-> 10 * g + j, p |-> 1 + ((p0 + (j - 1) * st) % 8),
                      f |-> IF j = 1 THEN Pick(s, o + 3, <<"ok", "norlo", "overflow">>) ELSE Pick(s, o + 2 + j, <<"ok", "ok", "norlo", "overflow", "nobh", "norlo">>),
                      h1 |-> j = 1 \/ D(s, o + 6 + j, 3) # 0]]
Script(k) ==
  LET s == Stream(k)
      fix == D(s, 1, 3) # 0
      ng == D(s, 2, 3) + 1
  IN [id |-> k, rlo |-> D(s, 3, 2) = 0, fix |-> fix,
      nb |-> IF fix THEN Pick(s, 4, <<0, 19, 20, 20, 21>>) ELSE 0,
      inb |-> D(s, 5, 2) = 0,                      \* boundary systems within the first grid, or a grid of their own
      grids |-> [g \in 1..ng |-> Runs(s, g)],
      fold |-> D(s, 6, 4) = 0,                     \* make one grid of all folders instead of joining
      col |-> D(s, 7, 2) = 0,                      \* a column is added to every grid first
      wide |-> IF fix THEN Pick(s, 63, <<0, 0, 1, 2>>) ELSE 0,   \* a grid with wider boundary systems last / first
      mix |-> D(s, 56, 12) = 0,
      nest |-> D(s, 57, 3) = 0,                    \* join step by step
      lazy |-> D(s, 58, 2) = 0,
      ops |-> [j \in 1..4 |-> Pick(s, 58 + j, <<"add", "over", "deny", "short", "eager", "lazy", "update", "over", "add2">>)]]
Init == c \in {Script(k) : k \in 1..NScripts}
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
