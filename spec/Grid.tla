-------------------------------- MODULE Grid --------------------------------
(* Grids, node numbering, periodic wrapping, grid frequencies, conjugate     *)
(* nodes and the set of independent Fourier amplitudes of a real field.      *)
(* Positions are sequences of length 2 or 3, nodes are numbered from zero.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Cardinality(DOMAIN s)

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* all positions inside a box with the given extents *)
Positions(shape) == {p \in [1..Len(shape) -> 0..(CHOOSE m \in Range(shape) : \A x \in Range(shape) : x <= m) - 1] :
                        \A a \in 1..Len(shape) : p[a] < shape[a]}
NumNodes(shape) == Product(shape)
Nodes(shape) == 0..NumNodes(shape) - 1

(* the reference numbering: rows of the first axis, the third axis slowest *)
Node(shape, p) ==
    IF Len(shape) = 2 THEN p[1] * shape[2] + p[2]
                      ELSE p[3] * shape[1] * shape[2] + p[1] * shape[2] + p[2]
PosOf(shape, n) ==
    IF Len(shape) = 2 THEN <<n \div shape[2], n % shape[2]>>
    ELSE <<(n \div shape[2]) % shape[1], n % shape[2], n \div (shape[1] * shape[2])>>

WrapPos(shape, p) == [a \in 1..Len(shape) |-> p[a] % shape[a]]

(* integer frequency numerators: the frequency along axis a is k/shape[a] in (-1/2, 1/2] *)
Signed(k, n) == IF 2 * k > n THEN k - n ELSE k
FreqNum(shape, n) == [a \in 1..Len(shape) |-> Signed(PosOf(shape, n)[a], shape[a])]
InBand(k, n) == -n < 2 * k /\ 2 * k <= n
SameFreq(shape, k, q) == \A a \in 1..Len(shape) : (k[a] - q[a]) % shape[a] = 0

Conjugate(shape, n) == Node(shape, [a \in 1..Len(shape) |-> (shape[a] - PosOf(shape, n)[a]) % shape[a]])
SelfConjugate(shape) == {n \in Nodes(shape) : Conjugate(shape, n) = n}
(* S holds exactly one member of every conjugate pair *)
HalfSpace(shape, S) == /\ S \subseteq Nodes(shape)
                       /\ \A n \in Nodes(shape) : Cardinality(S \cap {n, Conjugate(shape, n)}) = 1

(* lexicographic order on positions, used by the product iterator *)
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF p = <<>> THEN FALSE
                 ELSE \/ Head(p) < Head(q)
                      \/ Head(p) = Head(q) /\ LexLess(Tail(p), Tail(q))

(* squared distance under the minimum image convention *)
AxisDist(a, b, n) == LET d == Abs(a - b) % n IN Min2(d, n - d)
DistSq(shape, n, m) == LET p == PosOf(shape, n)  q == PosOf(shape, m)
                       IN Sum([a \in 1..Len(shape) |-> AxisDist(p[a], q[a], shape[a]) * AxisDist(p[a], q[a], shape[a])])
ClosestPoint(shape, pts, n) ==
    CHOOSE i \in 1..Len(pts) : /\ \A j \in 1..Len(pts) : DistSq(shape, pts[i], n) <= DistSq(shape, pts[j], n)
                               /\ \A j \in 1..i-1 : DistSq(shape, pts[i], n) < DistSq(shape, pts[j], n)

(* ---------------------------------------------------------------------- *)
(* Affine transformations on exact positions: [num, den], den a power of 2 *)
Quarter(p, axis) ==      \* one quarter turn of a 3-vector about an axis, right handed
    CASE axis = "X" -> <<p[1], -p[3], p[2]>>
      [] axis = "Y" -> <<p[3], p[2], -p[1]>>
      [] axis = "Z" -> <<-p[2], p[1], p[3]>>
RECURSIVE Turns(_, _, _)
Turns(p, axis, n) == IF n % 4 = 0 THEN p ELSE Turns(Quarter(p, axis), axis, (n % 4) - 1)

Pad3(v, x) == [a \in 1..3 |-> IF a <= Len(v) THEN v[a] ELSE x]
ApplyOne(q, t) ==
    LET p == q.num IN
    CASE t.op = "T" -> [num |-> [a \in 1..3 |-> 2 * p[a] + Pad3(t.v, 0)[a] * q.den], den |-> 2 * q.den]
      [] t.op = "S" -> [num |-> [a \in 1..3 |-> p[a] * Pad3(t.v, 0)[a]], den |-> 2 * q.den]
      [] OTHER -> [num |-> Turns(p, t.op, t.v[1]), den |-> q.den]
RECURSIVE ApplyAll(_, _)
ApplyAll(q, ts) == IF ts = <<>> THEN q ELSE ApplyAll(ApplyOne(q, Head(ts)), Tail(ts))
(* sign of (boundary - distance): 1 strictly inside, 0 on the boundary, -1 outside *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Inside(name, size, q, dim) ==
    IF name = "box"
    THEN LET s == {Sgn(size[a] * q.den - 8 * Abs(q.num[a])) : a \in 1..dim}
         IN IF -1 \in s THEN -1 ELSE IF 0 \in s THEN 0 ELSE 1
    ELSE Sgn(size[1] * q.den * q.den - 16 * Sum([a \in 1..dim |-> q.num[a] * q.num[a]]))
Exact(ts) == \A i \in DOMAIN ts : ts[i].op \in {"T", "S"}
Where(shape, ts, n) == ApplyAll([num |-> Pad3(PosOf(shape, n), 0), den |-> 1], ts)

(* ---------------------------------------------------------------------- *)
(* Blurring: weighted sum over the periodic neighbourhood *)
Offsets(dim, h) == [1..dim -> -h..h]
BoxOffsets(dim, width) == Offsets(dim, width \div 2)
KernelIndex(o, cut) == LET m == 2 * cut + 1 IN
    IF Len(o) = 2 THEN (o[1] + cut) * m + o[2] + cut + 1
                  ELSE ((o[1] + cut) * m + o[2] + cut) * m + o[3] + cut + 1
RECURSIVE SumOver(_, _, _, _, _, _)
SumOver(S, shape, data, p, ker, cut) ==
    IF S = {} THEN 0
    ELSE LET o == CHOOSE x \in S : TRUE
             q == WrapPos(shape, [a \in 1..Len(shape) |-> p[a] + o[a]])
             w == IF ker = <<>> THEN 1 ELSE ker[KernelIndex(o, cut)]
         IN w * data[Node(shape, q) + 1] + SumOver(S \ {o}, shape, data, p, ker, cut)
BlurBox(shape, data, width, n) == SumOver(BoxOffsets(Len(shape), width), shape, data, PosOf(shape, n), <<>>, 0)
BlurKernel(shape, data, ker, cut, n) == SumOver(Offsets(Len(shape), cut), shape, data, PosOf(shape, n), ker, cut)

(* ---------------------------------------------------------------------- *)
(* Equivalent crystal planes *)
Perms3 == {p \in [1..3 -> 1..3] : {p[1], p[2], p[3]} = 1..3}
Signs3 == [1..3 -> {-1, 1}]
Equivalent(m) == {[a \in 1..3 |-> s[a] * m[p[a]]] : p \in Perms3, s \in Signs3}
SignEquivalent(m) == {[a \in 1..3 |-> s[a] * m[a]] : s \in Signs3}
=============================================================================
