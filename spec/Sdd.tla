-------------------------------- MODULE Sdd ---------------------------------
(* The life of a shrinking-dimer stepper: what must be set before it steps,  *)
(* what it refuses, its clock and the length of its dimer. Lengths are in    *)
(* units of 1/Unit; the decay time is chosen such that the length halves in  *)
(* every time step, so that everything is an integer.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Gen, MaxOps
VARIABLES ready, dt, step, start, len0, min, hist, n, dir
vars == <<ready, dt, step, start, len0, min, hist, n, dir>>
Unit == 4096
RECURSIVE Half(_, _)
Half(x, k) == IF k = 0 THEN x ELSE Half(x \div 2, k - 1)
Max(a, b) == IF a > b THEN a ELSE b
Length == Max(Half(len0, step), min)
Pick(S) == IF Gen THEN {RandomElement({x \in S : n >= 0})} ELSE S
Lengths == IF Gen THEN {2048, 4096, 8192, 32768} ELSE {4096, 8192}
Mins == IF Gen THEN {0, 256, 1024, 4096} ELSE {0, 2048}
Init == ready = FALSE /\ dt = FALSE /\ step = -1 /\ start = 0 /\ len0 = 0 /\ min = 0 /\ hist = <<>> /\ n = 0 /\ dir = 0
(* what is observed after every operation: whether it was refused, the number of steps in the clock, the length, and
   which orientation was given last (0: none, otherwise the number of the operation that gave it) *)
Log(op, arg, refused, st, l, d) == hist' = Append(hist, [op |-> op, arg |-> arg, refused |-> refused, step |-> st, len |-> l, dir |-> d])
New == step = -1 /\ \E s \in Pick({0, 2}) : step' = s /\ start' = s /\ Log("new", s, FALSE, s, 0, 0) /\ n' = n + 1 /\ UNCHANGED <<ready, dt, len0, min, dir>>
Live == step >= 0 /\ n <= MaxOps
Same == UNCHANGED <<ready, dt, step, start, len0, min, dir>>
SetDt == Live /\ ~dt /\ dt' = TRUE /\ Log("dt", 0, FALSE, step, Length, dir) /\ n' = n + 1 /\ UNCHANGED <<ready, step, start, len0, min, dir>>
Give(op) == /\ Live /\ \E l \in Pick(Lengths) : len0' = l /\ Log(op, l, FALSE, step, Max(Half(l, step), min), n)
            /\ ready' = TRUE /\ dir' = n /\ n' = n + 1 /\ UNCHANGED <<dt, step, start, min>>
SetMin == Live /\ \E m \in Pick(Mins) : min' = m /\ Log("min", m, FALSE, step, Max(Half(len0, step), m), dir) /\ n' = n + 1 /\ UNCHANGED <<ready, dt, step, start, len0, dir>>
Wrong == Live /\ Log("wrong", 0, TRUE, step, Length, dir) /\ n' = n + 1 /\ Same
Filter == Live /\ Log("filter", 0, TRUE, step, Length, dir) /\ n' = n + 1 /\ Same
Step == /\ Live /\ n' = n + 1
        /\ IF ready /\ dt THEN /\ step' = step + 1 /\ Log("step", 0, FALSE, step + 1, Max(Half(len0, step + 1), min), dir)
                               /\ UNCHANGED <<ready, dt, start, len0, min, dir>>
           ELSE Log("step", 0, TRUE, step, Length, dir) /\ Same
Next == New \/ SetDt \/ Give("orient") \/ Give("init") \/ SetMin \/ Wrong \/ Filter \/ Step \/ (Gen /\ ready /\ dt /\ Step) \/ (Gen /\ ready /\ dt /\ min = 0 /\ Step)
Spec == Init /\ [][Next]_vars
View == <<ready, dt, step, start, len0, min, n, dir>>
(* ---- properties ---- *)
NeverBelow == step >= 0 /\ ready => Length >= min
Shrinks == [][ (step >= 0 /\ len0' = len0 /\ min' = min) => Max(Half(len0', step'), min') <= Length ]_vars
Cardinality2(h) == LET F[i \in 0..Len(h)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF h[i].op = "step" /\ ~h[i].refused THEN 1 ELSE 0) IN F[Len(h)]
Clock == step >= 0 => step = start + Cardinality2(hist)
RefusalChangesNothing == [][ (hist' # hist /\ hist'[Len(hist')].refused) => <<ready, dt, step, len0, min, dir>>' = <<ready, dt, step, len0, min, dir>> ]_vars
NoEarlyStep == \A i \in 1..Len(hist) : (hist[i].op = "step" /\ ~hist[i].refused) => hist[i].dir > 0
Emit == (Gen /\ n > MaxOps) => PrintT("@@D " \o ToJson([unit |-> Unit, start |-> start, hist |-> hist]))
=============================================================================
