------------------------------ MODULE Stepper -------------------------------
(* The time stepping schemes as plans over registers. Every register holds   *)
(* the values of all fields at one instant.                                  *)
(*   eval: the explicit right-hand side of every field at register "at" and  *)
(*         time t + T/2 dt                                                   *)
(*   comb: out = (base + dt * sum w/6 k) / (1 - A/2 dt a), for every field   *)
(*   filter: every mode of the register once, when a filter is set           *)
EXTENDS Integers, Sequences, FiniteSets
Eval(at, T, out) == [op |-> "eval", at |-> at, t |-> T, out |-> out, base |-> "", ks |-> <<>>, a |-> 0]
Comb(out, base, ks, A) == [op |-> "comb", at |-> "", t |-> 0, out |-> out, base |-> base, ks |-> ks, a |-> A]
Filt(out) == [op |-> "filter", at |-> "", t |-> 0, out |-> out, base |-> "", ks |-> <<>>, a |-> 0]
W(k, w) == [k |-> k, w |-> w]
Euler == <<Eval("y0", 0, "k1"), Comb("y1", "y0", <<W("k1", 6)>>, 2), Filt("y1")>>
RK4 == << Eval("y0", 0, "k1"),
          Comb("s2", "y0", <<W("k1", 3)>>, 1), Eval("s2", 1, "k2"),
          Comb("s3", "y0", <<W("k2", 3)>>, 1), Eval("s3", 1, "k3"),
          Comb("s4", "y0", <<W("k3", 6)>>, 2), Eval("s4", 2, "k4"),
          Comb("y1", "y0", <<W("k1", 1), W("k2", 2), W("k3", 2), W("k4", 1)>>, 2), Filt("y1") >>
(* The fully implicit scheme is a relation: the new register is found by some iteration (solve) and is accepted   *)
(* when, with the rate evaluated AT the new register and the new time, it is the exact propagation of the base by  *)
(* the implicit part plus that of the rate drawn linearly from k1 to k2 (prop, weights in sixths of the step).    *)
Solve(out) == [op |-> "solve", at |-> "", t |-> 0, out |-> out, base |-> "", ks |-> <<>>, a |-> 0]
Prop(out, base, ks, A) == [op |-> "prop", at |-> "", t |-> 0, out |-> out, base |-> base, ks |-> ks, a |-> A]
Implicit == << Eval("y0", 0, "k1"), Solve("y1"), Eval("y1", 2, "k2"), Prop("y1", "y0", <<W("k1", 3), W("k2", 3)>>, 2) >>
Plan(scheme) == IF scheme = "euler" THEN Euler ELSE IF scheme = "rk4" THEN RK4 ELSE Implicit
Schemes == {"euler", "rk4"}
AllSchemes == Schemes \cup {"implicit"}
EvalsOf(p) == SelectSeq(p, LAMBDA i : i.op = "eval")
=============================================================================
