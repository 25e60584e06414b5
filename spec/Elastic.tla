------------------------------ MODULE Elastic -------------------------------
(* Elastic tensors as integers: every real tensor is T / D. The operations   *)
(* of gopf/elasticity on them are exact here because rotations are by        *)
(* quarter turns or by Pythagorean angles (cosine c/h, sine s/h), poisson    *)
(* ratios are fractions, and body forces are made from the displacements     *)
(* they have to produce.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
I3 == 0..2
Dl(a, b) == IF a = b THEN 1 ELSE 0
(* index of T_ijkl *)
At(T, i, j, k, l) == T[27 * i + 9 * j + 3 * k + l]
Tensor(f(_, _, _, _)) == TLCEval([x \in 0..80 |-> f(x \div 27, (x \div 9) % 3, (x \div 3) % 3, x % 3)])
Mat(f(_, _)) == TLCEval([x \in 0..8 |-> f(x \div 3, x % 3)])
Sum9(f(_)) == f(0) + f(1) + f(2) + f(3) + f(4) + f(5) + f(6) + f(7) + f(8)
Sum3(f(_)) == f(0) + f(1) + f(2)
(* ---- the documented tensors ---- *)
Voigt(i, j) == IF i = j THEN i ELSE 6 - i - j
FromVoigt(v) == LET f(i, j, k, l) == v[6 * Voigt(i, j) + Voigt(k, l) + 1] IN Tensor(f)
Iso(B, p, q) == LET f(i, j, k, l) == 6 * B * p * Dl(i, j) * Dl(k, l) + 3 * B * (q - 2 * p) * (Dl(i, k) * Dl(j, l) + Dl(i, l) * Dl(j, k))
                IN Tensor(f)
IsoDen(p, q) == 2 * (q + p)
CubicVoigt(a, b, c) == [x \in 1..36 |-> LET m == (x - 1) \div 6  n == (x - 1) % 6 IN
                          IF m = n THEN (IF m < 3 THEN a ELSE c) ELSE IF m < 3 /\ n < 3 THEN b ELSE 0]
Cubic(a, b, c) == FromVoigt(CubicVoigt(a, b, c))
(* o: the nine constants of an orthotropic material *)
OrthoVoigt(o) == [x \in 1..36 |-> LET m == (x - 1) \div 6  n == (x - 1) % 6 IN
                    IF m = n THEN o[m + 1] ELSE IF m < 3 /\ n < 3 THEN o[6 + m + n] ELSE 0]
(* ---- rotations ---- *)
(* about axis ax; the sine is in the row of the smaller of the two other axes *)
Rot(ax, c, s, h) == LET f(i, j) == IF i = j THEN (IF i = ax THEN h ELSE c) ELSE IF i = ax \/ j = ax THEN 0 ELSE IF i < j THEN s ELSE -s IN Mat(f)
Cyc(T, R) == TLCEval([x \in 0..80 |-> R[3 * (x % 3)] * T[x \div 3] + R[3 * (x % 3) + 1] * T[27 + x \div 3] + R[3 * (x % 3) + 2] * T[54 + x \div 3]])
Rotate(T, R) == Cyc(Cyc(Cyc(Cyc(T, R), R), R), R)
RotMat(m, R) == LET f(i, j) == LET g(y) == R[3 * i + y \div 3] * R[3 * j + (y % 3)] * m[y] IN Sum9(g) IN Mat(f)
Transp(R) == LET f(i, j) == R[3 * j + i] IN Mat(f)
Contract(T, m) == LET f(i, j) == LET g(y) == T[27 * i + 9 * j + y] * m[y] IN Sum9(g) IN Mat(f)
Energy2(T, m) == LET c == Contract(T, m)  g(y) == c[y] * m[y] IN Sum9(g)
(* ---- equilibrium at one frequency k (integers), in units in which the factor (2 pi / q)^2 is one ---- *)
Acoustic(T, k, m, n) == LET g(y) == At(T, m, y \div 3, n, y % 3) * k[y \div 3 + 1] * k[(y % 3) + 1] IN Sum9(g)
ForceFor(T, k, u) == [m \in 1..3 |-> LET g(n) == Acoustic(T, k, m - 1, n) * u[n + 1] IN Sum3(g)]
(* the displacement of the mean is not determined by the force: it is zero *)
Solution(k, u) == IF k = <<0, 0, 0>> THEN <<0, 0, 0>> ELSE u
(* strain in units of pi / q, times i; a frequency of one half has no first derivative *)
Der(kc, q) == IF 2 * kc = q \/ 2 * kc = -q THEN 0 ELSE kc
StrainOf(k, q, u, m, n) == Der(k[n + 1], q) * u[m + 1] + Der(k[m + 1], q) * u[n + 1]
(* the force of a misfit stress, in units of 2 pi / q, times -i *)
MisfitForce(T, m, k, chi) == [c \in 1..3 |-> LET g(j) == Contract(T, m)[3 * (c - 1) + j] * k[j + 1] IN Sum3(g) * chi]
(* the force of a difference T in constants, at a node where the strain is e and the shape shp: same units *)
PerturbForce(T, m, e, k, shp) == LET d(i, j) == (m[3 * i + j] - e[3 * i + j]) * shp IN
                                 [c \in 1..3 |-> LET s == Contract(T, Mat(d))  g(j) == s[3 * (c - 1) + j] * k[j + 1] IN Sum3(g)]
(* ---- a slab of inclusion in a matrix of orthotropic constants: everything depends on one coordinate ---- *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Alt(x) == IF x % 2 = 1 THEN 1 ELSE -1      \* x counts from 1
(* N times f without its mean and without its alternating part *)
Fluct(f) == LET N == Len(f)  s == SumTo(f, N)  a == SumTo([x \in 1..N |-> Alt(x) * f[x]], N) IN
            TLCEval([x \in 1..N |-> N * f[x] - s - (IF N % 2 = 0 THEN Alt(x) * a ELSE 0)])
(* the acoustic constants divide Lcm *)
Lcm == 4
(* strain times 2 * Lcm * N made by the stress fields sg (sequence over x of matrices) *)
SlabStrain(T, ax, sg) ==
    LET N == Len(sg)
        fl == TLCEval([y \in 0..8 |-> Fluct([x \in 1..N |-> sg[x][y]])])
        f(x, i, j) == IF i = ax /\ j = ax THEN 2 * (Lcm \div At(T, ax, ax, ax, ax)) * fl[4 * ax][x]
                      ELSE IF i = ax THEN (Lcm \div At(T, j, ax, j, ax)) * fl[3 * ax + j][x]
                      ELSE IF j = ax THEN (Lcm \div At(T, i, ax, i, ax)) * fl[3 * ax + i][x]
                      ELSE 0
    IN TLCEval([x \in 1..N |-> LET g(i, j) == f(x, i, j) IN Mat(g)])
Scaled(m, s) == Mat(LAMBDA i, j : m[3 * i + j] * s)
Plus(a, b) == Mat(LAMBDA i, j : a[3 * i + j] + b[3 * i + j])
Minus(a, b) == Mat(LAMBDA i, j : a[3 * i + j] - b[3 * i + j])
Diff(T, U) == TLCEval([x \in 0..80 |-> T[x] - U[x]])
(* twice the energy of one line of nodes: constants T outside and U inside; SlabScale gives the factor it comes with *)
SlabUnit(N) == 2 * Lcm * N
SlabScale(N, pert) == LET s == IF pert THEN SlabUnit(N) * SlabUnit(N) ELSE SlabUnit(N) IN s * s
SlabTotal(T, U, ax, m, h, pert) ==
    LET N == Len(h)  s == SlabUnit(N)
        e0 == SlabStrain(T, ax, [x \in 1..N |-> Scaled(Contract(T, m), h[x])])
        \* what the difference in constants adds to first order
        e1 == SlabStrain(T, ax, [x \in 1..N |-> Scaled(Contract(Diff(U, T), Minus(Scaled(m, s), e0[x])), h[x])])
        tot == [x \in 1..N |-> IF pert THEN Minus(Plus(Scaled(e0[x], s), e1[x]), Scaled(m, h[x] * s * s)) ELSE Minus(e0[x], Scaled(m, h[x] * s))]
    IN TLCEval(<<SumTo([x \in 1..N |-> Energy2(IF h[x] = 1 THEN U ELSE T, tot[x])], N),      \* right
                 SumTo([x \in 1..N |-> Energy2(U, tot[x])], N)>>)                             \* the constants of the inclusion everywhere
(* ---- symmetries ---- *)
Minor(T) == \A i, j, k, l \in I3 : At(T, i, j, k, l) = At(T, j, i, k, l) /\ At(T, i, j, k, l) = At(T, i, j, l, k)
Major(T) == \A i, j, k, l \in I3 : At(T, i, j, k, l) = At(T, k, l, i, j)
=============================================================================
