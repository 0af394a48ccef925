-------------------------------- MODULE Interp ------------------------------
(* Reading between the models of a grid.                                     *)
(* "tracks": single-star models by initial mass (whole tracks, final values, *)
(* classes, structure); "near": binary models in (m1, m2 or q, period).      *)
(* Masses are lattice steps, values integers made so that mixes are exact.   *)
EXTENDS Integers, Sequences, FiniteSets
NA == 2000000000
INF == 1999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Ix(s) == 1..Len(s)

(* ---- single-star models --------------------------------------------------*)
Masses(R) == {R[i].m : i \in Ix(R)}
At(R, m) == R[CHOOSE i \in Ix(R) : R[i].m = m]
Below(R, M) == {m \in Masses(R) : m < M}
Above(R, M) == {m \in Masses(R) : m > M}
Lo(R, M) == CHOOSE m \in Below(R, M) : \A x \in Below(R, M) : x <= m
Hi(R, M) == CHOOSE m \in Above(R, M) : \A x \in Above(R, M) : x >= m
Known(R, M) == M \in Masses(R)
Inside(R, M) == Known(R, M) \/ (Below(R, M) # {} /\ Above(R, M) # {})
Mix(a, b, lo, hi, M) == a + (((M - lo) * (b - a)) \div (hi - lo))

(* a track starts where hydrogen burning supplies 99% of the light           *)
Zams(d) == LET ok == {i \in Ix(d) : d[i] >= -43} IN IF ok = {} THEN 1 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
Blend(x, y, lo, hi, M) == [i \in 1..Min2(Len(x), Len(y)) |-> Mix(x[i], y[i], lo, hi, M)]
Column(run, key) == CASE key = "age" -> run.a [] key = "mass" -> run.w [] OTHER -> run.v
Raw(R, key, M) == IF Known(R, M) THEN Column(At(R, M), key)
                  ELSE LET lo == Lo(R, M) hi == Hi(R, M) IN Blend(Column(At(R, lo), key), Column(At(R, hi), key), lo, hi, M)
Light(R, M) == IF Known(R, M) THEN At(R, M).d ELSE LET lo == Lo(R, M) hi == Hi(R, M) IN Blend(At(R, lo).d, At(R, hi).d, lo, hi, M)
Track(R, key, M) ==
  LET x == Raw(R, key, M)
      z == Zams(Light(R, M))
      y == SubSeq(x, z, Len(x))
  IN IF key = "age" THEN [i \in Ix(y) |-> y[i] - x[z]] ELSE y

(* final values: a model without the value is passed over                    *)
Has(R) == {m \in Masses(R) : At(R, m).f # NA}
Final(R, M) ==
  IF Known(R, M) THEN At(R, M).f
  ELSE LET B == Below(R, M) \cap Has(R)
           A == Above(R, M) \cap Has(R)
       IN IF B = {} \/ A = {} THEN NA
          ELSE LET lo == CHOOSE m \in B : \A x \in B : x <= m
                   hi == CHOOSE m \in A : \A x \in A : x >= m
                   x == At(R, lo).f
                   y == At(R, hi).f
               IN IF INF \in {x, y} THEN x ELSE Mix(x, y, lo, hi, M)
Class(R, M) == IF Known(R, M) THEN At(R, M).s
               ELSE LET lo == Lo(R, M) hi == Hi(R, M) IN IF (2 * M) < lo + hi THEN At(R, lo).s ELSE At(R, hi).s

(* structure: on the mass coordinate of the model whose innermost zone lies  *)
(* further out                                                               *)
Line(p, x) == IF \E i \in Ix(p) : p[i][1] = x THEN p[CHOOSE i \in Ix(p) : p[i][1] = x][2]
              ELSE LET i == CHOOSE j \in 1..(Len(p) - 1) : p[j][1] > x /\ p[j + 1][1] < x
                   IN p[i][2] + (((p[i][1] - x) * (p[i + 1][2] - p[i][2])) \div (p[i][1] - p[i + 1][1]))
Host(R, M) == IF Known(R, M) THEN M ELSE LET lo == Lo(R, M) hi == Hi(R, M) p == At(R, lo).p q == At(R, hi).p IN
              IF p[Len(p)][1] < q[Len(q)][1] THEN hi ELSE lo
Structure(R, M) ==
  LET h == At(R, Host(R, M)).p IN
  IF Known(R, M) THEN [i \in Ix(h) |-> h[i][2]]
  ELSE LET lo == Lo(R, M) hi == Hi(R, M) p == At(R, lo).p q == At(R, hi).p
       IN [i \in Ix(h) |-> Mix(Line(p, h[i][1]), Line(q, h[i][1]), lo, hi, M)]

(* ---- binary models: the nearest usable one (units: 1e-4 in the scaled     *)
(* coordinates; a lattice step is a quarter of a factor two)                 *)
Root4 == <<10000, 8409, 7071, 5946>>
Pow2 == <<1, 2, 4, 8, 16, 32, 64>>
Ratio(k) == Root4[(k % 4) + 1] \div Pow2[(k \div 4) + 1]          (* 2^(-k/4) *)
Usable(r) == r.cls # "not_converged" /\ ~r.hole
Off(c, r, x) == <<753 * Abs(r.a - x.a), IF c.q THEN Abs(Ratio(r.a - r.b) - Ratio(x.a - x.b)) ELSE 753 * Abs(r.b - x.b), 753 * Abs(r.p - x.p)>>
Far(o) == (o[1] * o[1]) + (o[2] * o[2]) + (o[3] * o[3])
Nearest(c, x) ==
  LET U == {i \in Ix(c.runs) : Usable(c.runs[i])}
      best == CHOOSE i \in U : \A j \in U : Far(Off(c, c.runs[i], x)) <= Far(Off(c, c.runs[j], x))
      o == Off(c, c.runs[best], x)
  IN {j \in U : Far(Off(c, c.runs[j], x)) <= Far(o) + (6 * (o[1] + o[2] + o[3])) + 9}

(* ---- what the user sees --------------------------------------------------*)
AskClause(c, e) ==
  LET q == e.q R == c.runs IN
  IF c.kind = "near" THEN
     IF e.err # "" THEN "no-answer"
     ELSE IF e.run \notin Ix(R) THEN "not-a-model-of-the-grid"
     ELSE IF ~Usable(R[e.run]) THEN "unusable-model-returned"
     ELSE IF e.run \notin Nearest(c, q) THEN "not-the-nearest-model"
     ELSE IF ~e.diff THEN "wrong-distance-reported"
     ELSE IF ~e.flags THEN "flags-of-another-model"
     ELSE "ok"
  ELSE IF ~Inside(R, q.m) THEN IF e.err # "" THEN "ok" ELSE "answered-outside-the-grid"
  ELSE IF e.err # "" THEN "no-answer"
  ELSE CASE q.op = "track" -> IF e.seq = Track(R, q.key, q.m) THEN "ok" ELSE IF Known(R, q.m) THEN "model-not-reproduced" ELSE "wrong-track-between-models"
         [] q.op = "final" -> IF c.nosn /\ q.sn THEN IF e.val = NA THEN "ok" ELSE "value-of-missing-model"
                              ELSE IF e.val = Final(R, q.m) THEN "ok" ELSE IF Known(R, q.m) THEN "final-value-not-reproduced" ELSE "wrong-final-value-between-models"
         [] q.op = "class" -> IF e.str = (IF c.nosn THEN "nan" ELSE Class(R, q.m)) THEN "ok" ELSE "class-of-wrong-model"
         [] q.op = "profile" -> IF e.host # Host(R, q.m) THEN "structure-on-wrong-model" ELSE IF e.seq = Structure(R, q.m) THEN "ok" ELSE "wrong-structure"
         [] OTHER -> "unexpected-question"
Fresh(e) == [c |-> e.c]
Clause(g, e) == CASE e.ev = "answer" -> AskClause(g.c, e) [] e.ev = "masses" -> IF e.m = [i \in Ix(g.c.runs) |-> g.c.runs[i].m] THEN "ok" ELSE "wrong-list-of-masses"
                  [] OTHER -> "unexpected-error"
Apply(g, e) == g
=============================================================================
