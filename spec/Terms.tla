------------------------------- MODULE Terms --------------------------------
(* What the ready-made terms of gopf/pf stand for, on periodic grids whose   *)
(* sides are 1, 2 or 4, where the discrete Fourier transform of integers     *)
(* is made of Gaussian integers. Frequencies are k / 4 with integer k, so    *)
(* that a derivative is i * k in units of pi / 2. A frequency of one half    *)
(* (k = 2) has no first derivative.                                          *)
(*                                                                           *)
(* The meaning of a term is what it adds to the equation of the field it     *)
(* stands in: a rate (explicit) or a multiplier of the own field (implicit), *)
(* both in Fourier space, as integers with a denominator and a power of      *)
(* pi / 2.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
(* ---- grids; nodes are numbered from 1 with the second coordinate running fastest, then the first, then the third ---- *)
Coord(sh, i) == IF Len(sh) = 2 THEN <<i \div sh[2], i % sh[2]>> ELSE <<(i \div sh[2]) % sh[1], i % sh[2], i \div (sh[1] * sh[2])>>
Quarter(n, c) == IF n = 1 THEN 0 ELSE IF n = 2 THEN 2 * c ELSE IF c = 3 THEN -1 ELSE c
Grid(sh) == LET N == Prod(sh)  D == Len(sh)
                xs == TLCEval([i \in 1..N |-> Coord(sh, i - 1)]) IN
            [sh |-> sh, N |-> N, D |-> D,
             k |-> TLCEval([i \in 1..N |-> [d \in 1..D |-> Quarter(sh[d], xs[i][d])]]),
             ph |-> TLCEval([i \in 1..N |-> [x \in 1..N |-> Sum([d \in 1..D |-> (4 \div sh[d]) * xs[i][d] * xs[x][d]]) % 4]])]
K2(g, i) == Sum([d \in 1..g.D |-> g.k[i][d] * g.k[i][d]])
Der(k) == IF k = 2 THEN 0 ELSE k
(* ---- transforms; a complex field is a pair of sequences ---- *)
Cplx(f) == [r |-> f, i |-> [x \in 1..Len(f) |-> 0]]
DFT(g, f) == TLCEval([r |-> [k \in 1..g.N |-> Sum([x \in 1..g.N |-> LET e == g.ph[k][x] IN
                                 IF e = 0 THEN f.r[x] ELSE IF e = 1 THEN f.i[x] ELSE IF e = 2 THEN -f.r[x] ELSE -f.i[x]])],
                      i |-> [k \in 1..g.N |-> Sum([x \in 1..g.N |-> LET e == g.ph[k][x] IN
                                 IF e = 0 THEN f.i[x] ELSE IF e = 1 THEN -f.r[x] ELSE IF e = 2 THEN -f.i[x] ELSE f.r[x]])]])
(* N times the inverse *)
IDFT(g, f) == LET h == DFT(g, [r |-> f.r, i |-> [k \in 1..g.N |-> -f.i[k]]]) IN [r |-> h.r, i |-> [k \in 1..g.N |-> -h.i[k]]]
Real(g, f) == DFT(g, Cplx(f))
(* f times i * m(k), or times m(k), in Fourier space *)
TimesI(g, f, m) == TLCEval([r |-> [k \in 1..g.N |-> -m[k] * f.i[k]], i |-> [k \in 1..g.N |-> m[k] * f.r[k]]])
Times(g, f, m) == TLCEval([r |-> [k \in 1..g.N |-> m[k] * f.r[k]], i |-> [k \in 1..g.N |-> m[k] * f.i[k]]])
CAdd(g, a, b) == TLCEval([r |-> [k \in 1..g.N |-> a.r[k] + b.r[k]], i |-> [k \in 1..g.N |-> a.i[k] + b.i[k]]])
CNull(g) == [r |-> [k \in 1..g.N |-> 0], i |-> [k \in 1..g.N |-> 0]]
RECURSIVE SumC(_, _, _)
SumC(g, f(_), n) == IF n = 0 THEN CNull(g) ELSE CAdd(g, f(n), SumC(g, f, n - 1))
DerAt(g, d) == TLCEval([k \in 1..g.N |-> Der(g.k[k][d])])
(* N times the derivative of a real field along d *)
GradN(g, f, d) == IDFT(g, TimesI(g, Real(g, f), DerAt(g, d))).r
(* N times the Laplacian of a real field *)
LapN(g, f) == IDFT(g, Times(g, Real(g, f), [k \in 1..g.N |-> -K2(g, k)])).r
Mul(g, a, b) == TLCEval([x \in 1..g.N |-> a[x] * b[x]])
(* ---- functions of the fields: sums of coefficient times product of fields (named in a sequence) ---- *)
Poly(g, F, p) == TLCEval([x \in 1..g.N |-> Sum([j \in 1..Len(p) |-> p[j].c * Prod([m \in 1..Len(p[j].f) |-> F[p[j].f[m]][x]])])])
(* ---- the terms ---- *)
Rate(w, den, pow) == [own |-> FALSE, w |-> w, den |-> den, pow |-> pow]
Own(g, m, den, pow) == [own |-> TRUE, w |-> [r |-> m, i |-> CNull(g).i], den |-> den, pow |-> pow]
(* minus velocity times gradient *)
Advection(g, F, t) == Rate(SumC(g, LAMBDA d : Times(g, Real(g, Mul(g, F[t.vel[d]], GradN(g, F[t.field], d))), [k \in 1..g.N |-> -1]), g.D), g.N, 1)
(* divergence of function times gradient *)
DivGrad(g, F, t) == LET h == Poly(g, F, t.poly) IN
                    Rate(SumC(g, LAMBDA d : TimesI(g, Real(g, Mul(g, h, GradN(g, F[t.field], d))), DerAt(g, d)), g.D), g.N, 2)
(* function times Laplacian *)
WeightedLaplacian(g, F, t) == Rate(Real(g, Mul(g, Poly(g, F, t.poly), LapN(g, F[t.field]))), g.N, 2)
(* factor (in halves) times square of the gradient *)
SquaredGradient(g, F, t) == Rate(SumC(g, LAMBDA d : LET h == GradN(g, F[t.field], d) IN Times(g, Real(g, Mul(g, h, h)), [k \in 1..g.N |-> t.factor]), g.D), 2 * g.N * g.N, 2)
(* K (in halves) contracted with the second derivatives of the own field *)
HessianAt(g, t, k) == -Sum([e \in 1..(g.D * g.D) |-> LET a == (e - 1) \div g.D + 1  b == ((e - 1) % g.D) + 1 IN
                             t.K[e] * (IF a = b THEN g.k[k][a] * g.k[k][a] ELSE Der(g.k[k][a]) * Der(g.k[k][b]))])
Hessian(g, F, t) == Own(g, TLCEval([k \in 1..g.N |-> HessianAt(g, t, k)]), 2, 2)
(* minus the divergence of the current; 90 is a multiple of every |k|^2 with a first derivative. The external field is in
   units of 2 / pi, and so is the field made by the charge *)
Sigma(g, a, b) == IF a = b THEN a ELSE IF g.D = 2 THEN 3 ELSE 9 - a - b
ElField90N(g, F, t, d) == LET h == Real(g, F[t.field])
                              m == [k \in 1..g.N |-> IF Der(g.k[k][d]) = 0 THEN 0 ELSE (90 \div K2(g, k)) * g.k[k][d]]
                              ind == IDFT(g, TimesI(g, h, m)).r
                          IN TLCEval([x \in 1..g.N |-> 90 * g.N * t.ext[d] - ind[x]])
CurrentTab(g, F, t) == LET E == TLCEval([d \in 1..g.D |-> ElField90N(g, F, t, d)]) IN
                       TLCEval([a \in 1..g.D |-> [x \in 1..g.N |-> Sum([b \in 1..g.D |-> t.sigma[x][Sigma(g, a, b)] * E[b][x]])]])
Charge(g, F, t) == LET j == CurrentTab(g, F, t) IN
                   Rate(SumC(g, LAMBDA d : TimesI(g, Real(g, j[d]), [k \in 1..g.N |-> -Der(g.k[k][d])]), g.D), 90 * g.N, 0)
(* derivative of prefactor * (n^2/2 - C3 n^3/6 + C4 n^4/12): linear part implicit, the rest explicit; times 6 *)
LapIf(g, t) == [k \in 1..g.N |-> IF t.lap THEN -K2(g, k) ELSE 1]
MixPow(t) == IF t.lap THEN 2 ELSE 0
MixLinear(g, F, t) == Own(g, [k \in 1..g.N |-> t.A * LapIf(g, t)[k]], 1, MixPow(t))
MixRest(g, F, t) == LET f == F[t.field]
                        h == TLCEval([x \in 1..g.N |-> t.A * (2 * t.c4 * f[x] * f[x] * f[x] - 3 * t.c3 * f[x] * f[x])]) IN
                    Rate(Times(g, Real(g, h), LapIf(g, t)), 6, MixPow(t))
(* the same as a function registered in the model; times 6 *)
MixEval(F, t, x) == LET n == F[t.field][x] IN t.A * (6 * n - 3 * t.c3 * n * n + 2 * t.c4 * n * n * n)
MixFunc(g, F, t) == Rate(Real(g, TLCEval([x \in 1..g.N |-> MixEval(F, t, x)])), 6, 0)
MixEnergy12(g, F, t) == LET f == F[t.field] IN
                        t.A * Sum([x \in 1..g.N |-> 6 * f[x] * f[x] - 2 * t.c3 * f[x] * f[x] * f[x] + t.c4 * f[x] * f[x] * f[x] * f[x]])
(* derivative of P * (|x|^p - x^p) *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
Penalty(P, p, x) == IF x >= 0 THEN 0 ELSE -P * p * (Pow(Abs(x), p - 1) + Pow(x, p - 1))
PenaltyFunc(g, F, t) == Rate(Real(g, TLCEval([x \in 1..g.N |-> Penalty(t.A, t.p, F[t.field][x])])), 1, 0)
(* terms whose dependence on |k| is a table (a function C of |k|^2 that is not rational): what multiplies C(|k|^2) *)
PairOwn(g, F, t) == Own(g, [k \in 1..g.N |-> -t.A * LapIf(g, t)[k]], 1, MixPow(t))
PairRate(g, F, t) == Rate(Times(g, Real(g, F[t.field]), [k \in 1..g.N |-> -t.A * LapIf(g, t)[k]]), 1, MixPow(t))
(* - 1/(2 N) sum of A C |n(k)|^2: what multiplies C for every |k|^2, times 2 N *)
PairEnergy(g, F, t) == LET h == Real(g, F[t.field]) IN TLCEval([k \in 1..g.N |-> -t.A * (h.r[k] * h.r[k] + h.i[k] * h.i[k])])
ViscOwn(g, F, t) == Own(g, [k \in 1..g.N |-> -t.A], 1, 0)
(* all parts of a term: a sequence *)
Parts(g, F, t) == CASE t.op = "adv" -> <<Advection(g, F, t)>>
                    [] t.op = "divgrad" -> <<DivGrad(g, F, t)>>
                    [] t.op = "wlap" -> <<WeightedLaplacian(g, F, t)>>
                    [] t.op = "sqgrad" -> <<SquaredGradient(g, F, t)>>
                    [] t.op = "hessian" -> <<Hessian(g, F, t)>>
                    [] t.op = "charge" -> <<Charge(g, F, t)>>
                    [] t.op = "mix" -> <<MixLinear(g, F, t), MixRest(g, F, t)>>
                    [] t.op = "mixfunc" -> <<MixFunc(g, F, t)>>
                    [] t.op = "penalty" -> <<PenaltyFunc(g, F, t)>>
                    [] t.op = "pair" -> <<PairOwn(g, F, t)>>
                    [] t.op = "pairexp" -> <<PairRate(g, F, t)>>
                    [] t.op = "visc" -> <<ViscOwn(g, F, t)>>
(* under the Laplacian, l times, and with a sign *)
Under(g, p, s, l) == LET m == [k \in 1..g.N |-> s * Pow(-K2(g, k), l)] IN [p EXCEPT !.w = Times(g, p.w, m), !.pow = p.pow + 2 * l]
Only(op) == op \in {"hessian", "pair", "visc", "mix"}     \* can only stand in the equation of their own field
=============================================================================
