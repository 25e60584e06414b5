------------------------------- MODULE Helpers ---------------------------------
(* Functions of one number that come with the library, at exact points.         *)
(* bound: x = tan(k pi / 2M) is mapped to lo + (hi - lo)(k + M) / 2M and back.   *)
(* penalty: the derivative of P (|x|^e - x^e) at x = k / M.                      *)
(* noise: mean, variance, fourth moment and correlation of neighbours (in units  *)
(* of 1, S, S^2, S) of noise of strength S = k / 4.                              *)
EXTENDS Integers, Sequences, TLC, Json
Kinds == {"bound", "penalty", "noise"}
Par == [bound |-> {<<lo, hi>> : lo \in -2..2, hi \in -1..5} , penalty |-> {<<P, e>> : P \in {1, 3, 1500}, e \in 2..6} \cup {<<1, 7>>, <<3, 8>>, <<1, 9>>}, noise |-> {<<0, 0>>}]
Ms(kind) == IF kind = "bound" THEN {2, 3, 5, 6} ELSE IF kind = "penalty" THEN {1, 4, 32} ELSE {4}
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
VARIABLES kind, par, M, k
vars == <<kind, par, M, k>>
First(d, m) == IF d = "bound" THEN 1 - m ELSE IF d = "penalty" THEN -5 ELSE 1
Last(d, m) == IF d = "bound" THEN m - 1 ELSE IF d = "penalty" THEN 2 ELSE 6
Init == /\ kind \in Kinds /\ par \in Par[kind] /\ M \in Ms(kind)
        /\ (kind = "bound" => par[1] < par[2])
        /\ (kind = "penalty" /\ par[2] > 6 => M <= 4)
        /\ k = First(kind, M)
Next == k < Last(kind, M) /\ k' = k + 1 /\ UNCHANGED <<kind, par, M>>
Spec == Init /\ [][Next]_vars
Bound(j) == <<2 * M * par[1] + (par[2] - par[1]) * (j + M), 2 * M>>
(* |x|^e - x^e is 0 for positive x and for even e, and 2 |x|^e otherwise *)
Even(n) == n % 2 = 0
Penalty(j) == IF j >= 0 \/ Even(par[2]) THEN <<0, Pow(M, par[2] - 1)>> ELSE <<-2 * par[1] * par[2] * Pow(-j, par[2] - 1), Pow(M, par[2] - 1)>>
Moments(j) == [mean |-> 0, var |-> 2, fourth |-> 12, corr |-> 0]
Value == CASE kind = "bound" -> Bound(k) [] kind = "penalty" -> Penalty(k) [] OTHER -> <<k, 4>>
(* strictly inside, strictly increasing, the middle in the middle *)
Inside == kind = "bound" => (par[1] * Value[2] < Value[1] /\ Value[1] < par[2] * Value[2])
Middle == (kind = "bound" /\ k = 0) => (2 * Value[1] = (par[1] + par[2]) * Value[2])
Mirror == kind = "bound" => (Bound(k)[1] + Bound(-k)[1] = (par[1] + par[2]) * Value[2])
Increasing == [][kind = "bound" => (Bound(k)[1] < Bound(k')[1])]_vars
(* pushes back what is negative, the more the larger it is; leaves the rest alone *)
Pushes == kind = "penalty" => (Value[1] <= 0 /\ (k >= 0 => (Value[1] = 0)))
Grows == [][kind = "penalty" => (Penalty(k)[1] <= Penalty(k')[1])]_vars
Emit == PrintT("@@H " \o ToJson([kind |-> kind, par |-> par, m |-> M, k |-> k, num |-> Value[1], den |-> Value[2], mom |-> Moments(k)]))
=============================================================================
