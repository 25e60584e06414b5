------------------------------ MODULE Vandeven -------------------------------
(* The filter of order p at x = a / b: 1 minus the normalised integral of     *)
(* (t (1 - t)) ^ (p - 1), which is the probability of fewer than p successes  *)
(* in 2p - 1 trials of probability x. Values are Num / b ^ (2p - 1).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Orders, Dens
RECURSIVE Pow(_, _), Choose(_, _), SumTo(_, _, _, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n, k - 1) * (n - k + 1)) \div k
SumTo(p, a, b, j) == IF j < 0 THEN 0 ELSE Choose(2 * p - 1, j) * Pow(a, j) * Pow(b - a, 2 * p - 1 - j) + SumTo(p, a, b, j - 1)
Den(p, b) == Pow(b, 2 * p - 1)
Num(p, a, b) == IF a >= b THEN 0 ELSE SumTo(p, a, b, p - 1)

VARIABLES p, a, b
vars == <<p, a, b>>
Init == p \in Orders /\ b \in Dens /\ a = 0
Next == a < b + 3 /\ a' = a + 1 /\ UNCHANGED <<p, b>>
Spec == Init /\ [][Next]_vars
(* keeps the mean, removes what lies at or beyond the edge, and never amplifies or turns a mode *)
Keeps == Num(p, 0, b) = Den(p, b)
Removes == a >= b => Num(p, a, b) = 0
Damps == Num(p, a, b) \in 0..Den(p, b)
Symmetric == a \in 0..b => Num(p, a, b) + Num(p, b - a, b) = Den(p, b)
Decreases == [][Num(p, a', b) <= Num(p, a, b) /\ (a < b => Num(p, a', b) < Num(p, a, b))]_vars
(* a higher order keeps more of the first half of the band *)
Sharper == (p + 1 \in Orders /\ 0 < 2 * a /\ 2 * a < b) => Num(p + 1, a, b) > b * b * Num(p, a, b)
Emit == PrintT("@@V " \o ToJson([order |-> p, a |-> a, b |-> b, num |-> Num(p, a, b), den |-> Den(p, b)]))
=============================================================================
