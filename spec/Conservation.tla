---------------------------- MODULE Conservation ----------------------------
(* What happens to the mean of a field: the zero-frequency mode under the    *)
(* plans of Stepper, with the parts of the equations of Equation. A part     *)
(* under a Laplacian (l > 0) and the conservative noise do not reach this    *)
(* mode, every other part reaches it with its own mean.                      *)
EXTENDS Stepper
(* ---- of a meaning (a sequence of parts) ---- *)
Reaches(part) == part.l = 0
Conserved(meaning) == \A i \in 1..Len(meaning) : ~Reaches(meaning[i])
(* ---- of a plan ---- *)
(* A step maps the mode m0 (in sixths of a unit) to m1, given the mean rate of every evaluation; no implicit part reaches the mode. *)
RECURSIVE Weighted(_, _)
Weighted(ks, r) == IF ks = <<>> THEN 0 ELSE Head(ks).w * r[Head(ks).k] + Weighted(Tail(ks), r)
FinalOf(p) == LET c == {i \in 1..Len(p) : p[i].op \in {"comb", "prop"} /\ p[i].out = "y1"} IN p[CHOOSE i \in c : TRUE]
Rates(p) == {p[i].out : i \in {j \in 1..Len(p) : p[j].op = "eval"}}
MeanAfter(p, m0, r) == m0 + Weighted(FinalOf(p).ks, r)
=============================================================================
