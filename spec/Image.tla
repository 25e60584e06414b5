-------------------------------- MODULE Image --------------------------------
(* A grid of values as an image: crystals drawn on it, the image turned about *)
(* its centre, a tilt grain boundary made of two turned halves, copies and    *)
(* the table written to a file. Lengths are in half spacings where an atom or *)
(* a kernel may lie between nodes.                                            *)
EXTENDS Grid, Sequences, FiniteSets, TLC

(* ---- crystals ---- *)
(* lattice points in the domain, in halves of the edge a of the cubic cell; the domain is a whole number of cells *)
HalfSteps(shape, a) == LET f(k) == 0..(2 * (shape[k] \div a) - 1) IN
    IF Len(shape) = 2 THEN {<<i, j>> : i \in f(1), j \in f(2)} ELSE {<<i, j, k>> : i \in f(1), j \in f(2), k \in f(3)}
OfLattice(cell, h) == CASE cell = "sc" -> \A k \in DOMAIN h : h[k] % 2 = 0
                        [] cell = "bcc" -> \A k \in DOMAIN h : h[k] % 2 = h[1] % 2
                        [] cell = "fcc" -> (h[1] + h[2] + h[3]) % 2 = 0
(* atoms, in half spacings: lattice points plus the positions u of the basis (in half spacings) *)
Atoms(shape, c) == {[k \in DOMAIN shape |-> c.a * h[k] + u[k]] : h \in {x \in HalfSteps(shape, c.a) : OfLattice(c.cell, x)}, u \in Range(c.basis)}
FloorHalf(x) == (x - (x % 2)) \div 2
TruncHalf(x) == IF x >= 0 THEN FloorHalf(x) ELSE -FloorHalf(-x)
(* the distances, in half spacings, at which the kernel of width C is sampled along an axis *)
Samples(C) == {2 * q - C + 1 : q \in 0..(C - 1)}
(* the sample of an atom at position x that falls on the coordinate p of an axis of n nodes (periodic), or none;
   Known is what the code does: it rounds positions below zero up, and the last of two samples on one node counts *)
SamplesOn(x, p, n, C, Known) == {d \in Samples(C) : (IF Known THEN TruncHalf(x + d) ELSE FloorHalf(x + d)) % n = p}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the value drawn on a node: 1 + the square of the distance to the atom in half spacings *)
Drawn(shape, c, atoms, n, Known) ==
    LET p == PosOf(shape, n)
        near == {x \in atoms : \A k \in DOMAIN shape : SamplesOn(x[k], p[k], shape[k], c.C, Known) # {}}
        v(x) == 1 + Sum([k \in DOMAIN shape |-> LET d == MaxOf(SamplesOn(x[k], p[k], shape[k], c.C, Known)) IN d * d])
    IN {v(x) : x \in near}
(* boxes of different atoms do not meet, and no position lies half way between samples *)
Apart(shape, c) == LET A == Atoms(shape, c) IN
    /\ Cardinality(A) = Len(c.basis) * Cardinality({h \in HalfSteps(shape, c.a) : OfLattice(c.cell, h)})
    /\ \A x \in A : \A k \in DOMAIN shape : (x[k] - c.C) % 2 = 0
    /\ \A x, y \in A : x # y => \E k \in DOMAIN shape : LET n == 2 * shape[k]  d == Abs(x[k] - y[k]) % n IN Min2(d, n - d) >= 2 * c.C
    /\ \A k \in DOMAIN shape : c.C <= shape[k]
Built(shape, c, img, Known) == LET A == Atoms(shape, c) IN
    [i \in 1..NumNodes(shape) |-> LET v == Drawn(shape, c, A, i - 1, Known) IN IF v = {} THEN img[i] ELSE CHOOSE x \in v : TRUE]

(* ---- turning: angles with cosine c/h and sine s/h ---- *)
Centre(shape) == [k \in 1..2 |-> shape[k] \div 2]
(* h times the place that a node is taken from, relative to the centre *)
From(shape, t, n) == LET p == PosOf(shape, n)  x == p[1] - Centre(shape)[1]  y == p[2] - Centre(shape)[2]
                     IN <<x * t[1] - y * t[2], y * t[1] + x * t[2]>>
FloorDiv(x, h) == (x - (x % h)) \div h
(* the nodes at most one spacing away from it along each axis *)
Sources(shape, t, n) == LET q == From(shape, t, n)  h == t[3]
        near(k) == {v \in (FloorDiv(q[k], h) - 1)..(FloorDiv(q[k], h) + 2) : Abs(h * v - q[k]) <= h}
    IN {Node(shape, WrapPos(shape, <<u + Centre(shape)[1], v + Centre(shape)[2]>>)) : u \in near(1), v \in near(2)}
Exactly(shape, t, n) == LET q == From(shape, t, n) IN Node(shape, WrapPos(shape, [k \in 1..2 |-> FloorDiv(q[k], t[3]) + Centre(shape)[k]]))
Back(t) == <<t[1], -t[2], t[3]>>
TurnedAt(shape, t, img, out, n) == IF t[2] = 0 /\ t[1] = t[3] THEN out[n + 1] = img[n + 1]
                                   ELSE \E m \in Sources(shape, t, n) : out[n + 1] = img[m + 1]
Turned(shape, t, img, out) == Len(out) = Len(img) /\ \A n \in Nodes(shape) : TurnedAt(shape, t, img, out, n)
(* the first half of the rows is turned by the angle, the rest by its opposite *)
Tilted(shape, t, img, out) == Len(out) = Len(img) /\
    \A n \in Nodes(shape) : TurnedAt(shape, IF PosOf(shape, n)[1] < shape[1] \div 2 THEN t ELSE Back(t), img, out, n)
(* ---- table ---- *)
Table(shape, img) == [i \in 1..NumNodes(shape) |-> PosOf(shape, i - 1) \o <<img[i]>>]
=============================================================================
