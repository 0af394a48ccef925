------------------------------ MODULE InterpGen -----------------------------
(* Pseudo-random grids and series of questions put to them.                  *)
EXTENDS Interp, TLC, Json
CONSTANTS NTracks, NNear
VARIABLE c
Lcg(x) == ((x * 171) + 11213) % 53125
Stream(k) == LET f[i \in 0..260] == IF i = 0 THEN Lcg(Lcg(Lcg((k * 7919 + 171) % 53125))) ELSE Lcg(f[i - 1]) IN f
D(s, i, n) == (s[i] \div 13) % n
Pick(s, i, q) == q[D(s, i, Len(q)) + 1]
Orders == << <<4, 8, 16>>, <<8, 4, 12, 24>>, <<4, 24>>, <<24, 8, 12>>, <<12, 4, 20, 8>>, <<4, 12, 16, 20>>, <<16, 4, 24, 8, 20>>, <<4, 8, 12, 16, 20, 24>> >>
Shapes == << <<64, 48, 32, 16>>, <<64, 32>>, <<64, 48>>, <<64, 16>>, <<64, 48, 16>>, <<64, 32, 16>> >>
Run(s, o, m) ==
  LET n == 2 + D(s, o, 4)
      z == Pick(s, o + 1, <<1, 2, 2, 3, 3, 4, 9>>)
      sh == Pick(s, o + 20, Shapes)
  IN [m |-> m, a |-> [i \in 1..n |-> (240 * i * (1 + D(s, o + 2, 3))) + (240 * D(s, o + 3, 4))],
      w |-> [i \in 1..n |-> IF i = 1 THEN 240 * m ELSE (240 * m) - (60 * i)],
      d |-> [i \in 1..n |-> IF i < z THEN -240 * (1 + D(s, o + 5, 2)) ELSE 240 * D(s, o + 4 + i, 2)],
      v |-> [i \in 1..n |-> 240 * (D(s, o + 10 + i, 40) - 15)],
      f |-> Pick(s, o + 16, <<NA, NA, 480, 2400, 0, -720, 9600, IF o = 30 THEN INF ELSE 240, 4800>>),
      s |-> Pick(s, o + 17, <<"BH", "NS", "WD", "None">>),
      p |-> [i \in 1..Len(sh) |-> <<sh[i], 1440 * D(s, o + 21 + i, 30)>>]]
Ask(s, o) == LET op == Pick(s, o, <<"track", "track", "track", "final", "final", "class", "profile", "profile">>)
                 key == Pick(s, o + 1, <<"age", "age", "mass", "other", "other">>) IN
             [op |-> op, key |-> IF op = "track" THEN key ELSE "other", m |-> 2 + D(s, o + 2, 25), n |-> D(s, o + 3, 997), sn |-> D(s, o + 4, 2) = 0]
Tracks(k) ==
  LET s == Stream(k)
      ms == Pick(s, 1, Orders)
  IN [kind |-> "tracks", id |-> k, runs |-> [i \in 1..Len(ms) |-> Run(s, 30 * i, ms[i])], nosn |-> D(s, 2, 6) = 0, q |-> FALSE,
      asks |-> [j \in 1..12 |-> IF j > 8 THEN Ask(s, 200 + (5 * (j - 8))) ELSE Ask(s, 200 + (5 * j))]]
Bin(s, o) == LET a == 4 + D(s, o, 13) IN
  [a |-> a, b |-> a - D(s, o + 1, 5) - (IF D(s, o + 5, 3) = 0 THEN 6 ELSE 0), p |-> D(s, o + 2, 17), cls |-> Pick(s, o + 3, <<"stable_MT", "no_MT", "unstable_MT", "initial_MT", "not_converged">>),
   hole |-> D(s, o + 4, 7) = 0]
Near(k) ==
  LET s == Stream(k + 4242)
      n == 2 + D(s, 1, 9)
      runs == [i \in 1..(n + 1) |-> IF i = 1 THEN [Bin(s, 10) EXCEPT !.cls = "no_MT", !.hole = FALSE] ELSE Bin(s, 10 * i)]
      from(i) == runs[(i % (n + 1)) + 1]
  IN [kind |-> "near", id |-> k, runs |-> runs, nosn |-> FALSE, q |-> D(s, 2, 2) = 0,
      asks |-> [j \in 1..8 |-> IF j % 2 = 0 THEN [a |-> from(j).a, b |-> from(j).b, p |-> from(j).p] ELSE LET x == Bin(s, 130 + (10 * j)) IN [a |-> x.a, b |-> x.b, p |-> x.p]]]
Init == c \in {Tracks(n) : n \in 1..NTracks} \/ c \in {Near(n) : n \in 1..NNear}
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
