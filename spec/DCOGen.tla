------------------------------- MODULE DCOGen -------------------------------
EXTENDS DCO, TLC, Json
CONSTANTS Draws
VARIABLE c
How == {[how |-> "none", hist |-> 1], [how |-> "n", hist |-> 4], [how |-> "dt", hist |-> 3], [how |-> "dt", hist |-> 1]}
Base == [k1 : Kinds, k2 : Kinds, ecc : {"none", "low", "mid", "high"}, when : {"before", "just", "after", "long"}, sep : {"wide"},
         from : {0, 1}, d : 1..Draws]
Touch == [k1 : {"NS", "BH"}, k2 : {"NS", "BH"}, ecc : {"none", "mid"}, when : {"long"}, sep : {"touch"}, from : {0, 1}, d : {1}]
Pick(b) == LET n == Len(b.k1 \o b.ecc \o b.when) + b.from + (IF b.k2 = "BH" THEN 1 ELSE IF b.k2 = "WD" THEN 2 ELSE 0) + b.d
           IN CASE n % 4 = 0 -> [how |-> "none", hist |-> 1] [] n % 4 = 1 -> [how |-> "n", hist |-> 4]
                [] n % 4 = 2 -> [how |-> "dt", hist |-> 3] [] OTHER -> [how |-> "dt", hist |-> 1]
Init == c \in {[k1 |-> b.k1, k2 |-> b.k2, ecc |-> b.ecc, when |-> b.when, sep |-> b.sep, from |-> b.from, d |-> b.d,
                how |-> Pick(b).how, hist |-> Pick(b).hist] : b \in Base \cup Touch}
Next == UNCHANGED c
Emit == PrintT(<<"SCRIPT", ToJson(c)>>)
=============================================================================
