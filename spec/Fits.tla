--------------------------------- MODULE Fits ----------------------------------
(* Requests whose arguments do not fit together are refused; the others are    *)
(* carried out. A request is an operation with four small numbers a, b, c, d.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Zero == 0..0
Par == [ nodeidx   |-> <<1..4, 0..3, Zero, Zero>>,      \* a dimensions; position b of the grid
         pos       |-> <<1..4, 0..1, Zero, Zero>>,
         sqgrad    |-> <<1..4, Zero, Zero, Zero>>,
         xdmf      |-> <<1..4, 1..2, Zero, Zero>>,
         equiv     |-> <<1..4, 1..3, Zero, Zero>>,
         advection |-> <<2..3, 1..4, 0..4, Zero>>,      \* a dimensions, b velocity fields, c: 0 all are there, i the i-th is not (b + 1: the field itself)
         noise     |-> <<2..3, 0..7, Zero, Zero>>,      \* a dimensions, b: the registered currents (bits)
         indicator |-> <<0..1, 0..1, Zero, Zero>>,      \* a: registered, b: another field is registered
         mixture   |-> <<0..1, 0..1, Zero, Zero>>,
         csv       |-> <<0..4, 1..7, 1..2, Zero>>,      \* a: 0 no domain, else nodes of the domain in a by c; b values
         draw      |-> <<2..4, 2..4, 0..2, 0..2>>,      \* bounding box with a lower and b upper ends, c, d: axis d has lower - upper = c - 1
         inside    |-> <<1..3, 1..3, Zero, Zero>>,      \* a dimensions of the box, b of the point
         rotate    |-> <<2..3, 0..1, Zero, Zero>>,      \* grid of a dimensions; b: tilt grain boundary
         powers    |-> <<1..3, 0..4, Zero, Zero>>,      \* a modes, b powers
         match     |-> <<0..5, Zero, Zero, Zero>>,      \* name of the property asked for
         twophase  |-> <<0..4, Zero, Zero, Zero>>,
         stepper   |-> <<0..4, Zero, Zero, Zero>>,      \* name of the scheme
         dbsave    |-> <<1..4, 1..3, 1..8, Zero>>,      \* domain a by b, field of c nodes
         missing   |-> <<0..1, 0..1, Zero, Zero>>,      \* a: the file is there, b: text
         eqno      |-> <<0..3, 1..2, Zero, Zero>> ]     \* field a of b equations
Bit(x, i) == (x \div (IF i = 0 THEN 1 ELSE IF i = 1 THEN 2 ELSE 4)) % 2
(* what fits *)
Fit(o, a, b, c, d) ==
  CASE o = "nodeidx" -> a \in {2, 3}
    [] o = "pos" -> a \in {2, 3}
    [] o = "sqgrad" -> a \in {2, 3}
    [] o = "xdmf" -> a \in {2, 3}
    [] o = "equiv" -> a \in {2, 3}
    [] o = "advection" -> b = a /\ c = 0
    [] o = "noise" -> \A i \in 0..(a - 1) : Bit(b, i) = 1
    [] o = "indicator" -> a = 1
    [] o = "mixture" -> a = 1
    [] o = "csv" -> a # 0 /\ a * c = b
    [] o = "draw" -> a = 3 /\ b = 3 /\ c # 2
    [] o = "inside" -> b <= a
    [] o = "rotate" -> a = 2
    [] o = "powers" -> a = b
    [] o = "match" -> a \in 0..1
    [] o = "twophase" -> a = 2
    [] o = "stepper" -> a \in {0, 1}
    [] o = "dbsave" -> a * b = c
    [] o = "missing" -> a = 1
    [] o = "eqno" -> a \in 1..b
VARIABLES o, p
vars == <<o, p>>
Init == /\ o \in DOMAIN Par
        /\ p = <<>>
Next == /\ Len(p) < 4
        /\ \E x \in Par[o][Len(p) + 1] : (o = "advection" /\ Len(p) = 2 => x <= p[2] + 1) /\ p' = Append(p, x)
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
Whole == Len(p) = 4
Verdict == IF Fit(o, p[1], p[2], p[3], p[4]) THEN "accepted" ELSE "refused"
(* every operation has a request that fits and one that does not *)
Matters == \A op \in DOMAIN Par, v \in {TRUE, FALSE} : \E a \in Par[op][1], b \in Par[op][2], c \in Par[op][3], d \in Par[op][4] : Fit(op, a, b, c, d) = v
Emit == Whole => PrintT("@@R " \o ToJson([op |-> o, a |-> p[1], b |-> p[2], c |-> p[3], d |-> p[4], verdict |-> Verdict]))
=============================================================================
