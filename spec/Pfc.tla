-------------------------------- MODULE Pfc ---------------------------------
(* The crystal side of gopf (package pfc) in integers.                       *)
(*  - a unit cell C (columns are the cell vectors) has integer entries, so   *)
(*    its reciprocal cell is 2 pi Cof(C) / Det(C), exactly;                  *)
(*  - a mode of the density is the sum of the cosines of all reciprocal      *)
(*    vectors equivalent to one set of Miller indices, so the mean over the  *)
(*    cell of a product of modes is the number of ways in which one vector   *)
(*    of each factor can be chosen such that they sum to zero;               *)
(*  - the free energy of amplitudes A is a polynomial with these numbers.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
(* ---- cells: functions <<row, col>> -> integer ---- *)
Ix(d) == (1..d) \X (1..d)
M(d, f(_, _)) == TLCEval([x \in Ix(d) |-> f(x[1], x[2])])
SumN(f(_), n) == f(1) + (IF n > 1 THEN f(2) ELSE 0) + (IF n > 2 THEN f(3) ELSE 0)
Mul(d, A, B) == LET f(i, j) == LET g(k) == A[<<i, k>>] * B[<<k, j>>] IN SumN(g, d) IN M(d, f)
Tr(d, A) == LET f(i, j) == A[<<j, i>>] IN M(d, f)
Neg(d, A) == LET f(i, j) == -A[<<i, j>>] IN M(d, f)
Scale(d, s, A) == LET f(i, j) == s * A[<<i, j>>] IN M(d, f)
Next3(i) == (i % 3) + 1
Cof(d, C) == IF d = 2
             THEN LET f(i, j) == (IF i = j THEN 1 ELSE -1) * C[<<3 - i, 3 - j>>] IN M(2, f)
             ELSE LET f(i, j) == C[<<Next3(i), Next3(j)>>] * C[<<Next3(Next3(i)), Next3(Next3(j))>>]
                                 - C[<<Next3(i), Next3(Next3(j))>>] * C[<<Next3(Next3(i)), Next3(j)>>] IN M(3, f)
Det(d, C) == LET K == Cof(d, C)  g(k) == C[<<1, k>>] * K[<<1, k>>] IN SumN(g, d)
Id(d, s) == LET f(i, j) == IF i = j THEN s ELSE 0 IN M(d, f)
(* the reciprocal cell in units of 2 pi / Det *)
Recip(d, C) == Cof(d, C)
(* a vector hkl in the same units *)
Vec(d, R, m) == [i \in 1..d |-> LET g(k) == R[<<i, k>>] * m[k] IN SumN(g, d)]
(* first order change of the reciprocal cell for the change E of the cell, in units of 2 pi / Det^2 *)
Change(d, C, E) == LET K == Cof(d, C) IN Neg(d, Mul(d, Mul(d, K, Tr(d, E)), K))
(* cell vectors and reciprocal vectors are dual, also (to first order) after the change *)
Dual(d, C) == Mul(d, Tr(d, Recip(d, C)), C) = Id(d, Det(d, C))
StaysDual(d, C, E) == LET a == Mul(d, Tr(d, Change(d, C, E)), C)  b == Scale(d, Det(d, C), Mul(d, Tr(d, Recip(d, C)), E)) IN
                      \A x \in Ix(d) : a[x] + b[x] = 0
(* ---- named lattices: the lengths of the shortest vectors. G: Gram matrix in units of (a/2)^2 ---- *)
Gram(d, C) == Mul(d, Tr(d, C), C)
Coef(d) == [1..d -> -2..2]
Len2(d, G, v) == LET h(i) == LET g(k) == v[i] * G[<<i, k>>] * v[k] IN SumN(g, d) IN SumN(h, d)
Shortest(d, G) == LET S == {Len2(d, G, v) : v \in Coef(d)} \ {0} IN CHOOSE x \in S : \A y \in S : x <= y
Neighbours(d, G) == Cardinality({v \in Coef(d) : Len2(d, G, v) = Shortest(d, G)})
(* shortest squared length in units of (a/2)^2, number of nearest neighbours, squared volume in units of (a/2)^(2 d) *)
Lattices == [SC2D |-> [d |-> 2, short |-> 4, n |-> 4, vol2 |-> 16], Triangular2D |-> [d |-> 2, short |-> 4, n |-> 6, vol2 |-> 12],
             SC3D |-> [d |-> 3, short |-> 4, n |-> 6, vol2 |-> 64], FCC |-> [d |-> 3, short |-> 2, n |-> 12, vol2 |-> 4],
             BCC |-> [d |-> 3, short |-> 3, n |-> 8, vol2 |-> 16]]
(* ---- modes ---- *)
Perms3 == {p \in [1..3 -> 1..3] : {p[i] : i \in 1..3} = 1..3}
Signs3 == [1..3 -> {-1, 1}]
Equiv3(m) == {<<s[1] * m[p[1]], s[2] * m[p[2]], s[3] * m[p[3]]>> : p \in Perms3, s \in Signs3}
Equiv(d, m) == IF d = 3 THEN Equiv3(m) ELSE {v \in Equiv3(m) : v[3] = 0}
(* twice the density of a mode at the position p / q, q one of 4, 6 *)
Cos2(j, q) == LET r == j % q IN IF q = 4 THEN (CASE r = 0 -> 2 [] r = 2 -> -2 [] OTHER -> 0)
              ELSE (CASE r = 0 -> 2 [] r \in {1, 5} -> 1 [] r \in {2, 4} -> -1 [] OTHER -> -2)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
Density2(d, m, p, q) == LET f(v) == Cos2(LET g(i) == v[i] * p[i] IN SumN(g, d), q) IN SumOver(Equiv(d, m), f)
(* the number of ways to reach a vector with one vector of each of a list of modes; at most the pairs are tabulated *)
Box(d, b) == ((-b)..b) \X ((-b)..b) \X (IF d = 3 THEN (-b)..b ELSE {0})
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Opp(u) == <<-u[1], -u[2], -u[3]>>
Pairs(E1, E2, B) == TLCEval([v \in B |-> Cardinality({g \in E1 : Add(v, Opp(g)) \in E2})])
(* ms: sequence of modes (with repetitions), of length 1 to 4 *)
Ways(d, ms, b) == LET E == TLCEval([i \in 1..Len(ms) |-> Equiv(d, ms[i])])  B == Box(d, b) IN
    CASE Len(ms) = 1 -> (IF <<0, 0, 0>> \in E[1] THEN 1 ELSE 0)
      [] Len(ms) = 2 -> Cardinality({g \in E[1] : Opp(g) \in E[2]})
      [] Len(ms) = 3 -> LET P == Pairs(E[1], E[2], B)  f(g) == P[g] IN SumOver(E[3], f)
      [] OTHER -> LET P == Pairs(E[1], E[2], B)  Q == Pairs(E[3], E[4], B)  f(v) == P[v] * Q[v] IN SumOver({v \in B : P[v] * Q[v] # 0}, f)
(* expansion of (sum_i A_i n_i)^p: one record per exponent vector, with the multinomial coefficient *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Exps(n, p) == {e \in [1..n -> 0..p] : LET g(i) == e[i] IN SumN(g, n) = p}
RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Rep(x, k - 1)
RECURSIVE Spread(_, _, _)
Spread(modes, e, i) == IF i > Len(modes) THEN <<>> ELSE Rep(modes[i], e[i]) \o Spread(modes, e, i + 1)
RECURSIVE Multi(_, _, _)
Multi(e, i, acc) == IF i = 0 THEN acc ELSE Multi(e, i - 1, acc \div Fact(e[i]))
Poly(d, modes, p, b) == {[e |-> e, c |-> Multi(e, Len(modes), Fact(p)) * Ways(d, Spread(modes, e, 1), b)] : e \in Exps(Len(modes), p)}
(* ---- the expanded ideal mixing energy, times 12, and its derivative times 6 ---- *)
Ideal12(c3, c4, n) == (6 * n * n) + (-2 * c3 * n * n * n) + (c4 * n * n * n * n)
IdealDeriv6(c3, c4, n) == (6 * n) + (-3 * c3 * n * n) + (2 * c4 * n * n * n)
(* ---- elastic weights of a mode; Q: Gram matrix of the reciprocal cell. The documented C_stuv is m_t Q_su m_v ---- *)
CEl(Q, m, s, t, u, v) == m[t] * Q[<<s, u>>] * m[v]
Bulk9(d, Q, m) == LET h(i) == LET g(j) == CEl(Q, m, i, i, j, j) IN SumN(g, d) IN SumN(h, d)
Shear15(Q, m) == CEl(Q, m, 1, 1, 1, 1) + CEl(Q, m, 2, 2, 2, 2) + CEl(Q, m, 3, 3, 3, 3)
                 - CEl(Q, m, 1, 1, 2, 2) - CEl(Q, m, 2, 2, 3, 3) - CEl(Q, m, 1, 1, 3, 3)
                 + 3 * (CEl(Q, m, 1, 2, 1, 2) + CEl(Q, m, 2, 3, 2, 3) + CEl(Q, m, 1, 3, 1, 3))
(* ---- the blend of two correlation functions; c = j / 4, times 32 ---- *)
Blend32(j) == IF j <= 0 THEN 0 ELSE IF j >= 4 THEN 32 ELSE 6 * j * j - j * j * j
(* ---- and the derivative of its weight, times 8 ---- *)
DBlend8(j) == IF j \in 0..4 THEN 12 * j - 3 * j * j ELSE 0
(* ---- the pair correlation function: minus eight times its logarithm. pk: <<density * planes, width, location>>, T: temperature ---- *)
LogCorr8(T, pk, k) == (4 * T * T * k * k) \div pk[1] + (4 * (k - pk[3]) * (k - pk[3])) \div (pk[2] * pk[2])
MinLog8(T, pks, k) == LET S == {LogCorr8(T, pks[i], k) : i \in DOMAIN pks} IN CHOOSE x \in S : \A y \in S : x <= y
(* ---- starting points: all sign combinations ---- *)
Starts(x) == {[i \in 1..Len(x) |-> s[i] * x[i]] : s \in [1..Len(x) -> {-1, 1}]}
=============================================================================
