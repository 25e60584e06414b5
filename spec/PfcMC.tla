------------------------------- MODULE PfcMC --------------------------------
(* A crystal is chosen (cell and modes) and its quantities are asked for.    *)
(* With Gen, random behaviours are written out with what must be observed;   *)
(* without, small cells and modes are explored and the laws are checked.     *)
EXTENDS Pfc, Json
CONSTANTS Gen, MaxOps
VARIABLES d, C, modes, n, hist
vars == <<d, C, modes, n, hist>>
R(S) == RandomElement({x \in S : n >= 0})
Pick(S) == IF Gen THEN {R(S)} ELSE S
ListM(A) == [i \in 1..(d * d) |-> A[<<((i - 1) \div d) + 1, ((i - 1) % d) + 1>>]]
Modes(dim) == IF dim = 2 THEN {<<1, 0, 0>>, <<1, 1, 0>>, <<2, 0, 0>>, <<2, 1, 0>>, <<2, 2, 0>>}
              ELSE {<<1, 0, 0>>, <<1, 1, 0>>, <<1, 1, 1>>, <<2, 0, 0>>, <<2, 1, 0>>, <<2, 1, 1>>, <<2, 2, 0>>}
Signed(m) == [i \in 1..3 |-> IF m[i] = 0 THEN 0 ELSE m[i] * R({s \in {-1, 1} : i > 0})]
Cells(dim) == IF Gen THEN {TLCEval([x \in Ix(dim) |-> R({y \in -3..4 : x[1] > 0})])}
              ELSE IF dim = 2 THEN [Ix(2) -> -1..2] ELSE {[x \in Ix(3) |-> IF x[1] = x[2] THEN 2 ELSE f[x]] : f \in [Ix(3) -> {0, 1}]}
ModeLists(dim) == IF Gen THEN {LET k == R({1, 2, 2, 3, 3})  s == TLCEval([i \in 1..3 |-> R({y \in Modes(dim) : i > 0})]) IN
                               IF s[1] = s[2] \/ k = 1 THEN <<s[1]>> ELSE IF k = 2 \/ s[3] \in {s[1], s[2]} THEN <<s[1], s[2]>> ELSE s}
                  ELSE {<<a, b>> : a, b \in Modes(dim)} \ {<<a, a>> : a \in Modes(dim)}
Init == d = 2 /\ C = <<>> /\ modes = <<>> /\ n = 0 /\ hist = <<>>
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE <<r.op>>
(* in the exploration cells and modes are independent *)
Choose == /\ n = 0 /\ n' = 1
          /\ \E dim \in Pick({2, 3}) : \E c \in Cells(dim), m \in (IF Gen THEN ModeLists(dim) ELSE {<<>>}) :
               /\ Det(dim, c) # 0 /\ d' = dim /\ C' = c /\ modes' = m
               /\ LET lst(A) == [i \in 1..(dim * dim) |-> A[<<((i - 1) \div dim) + 1, ((i - 1) % dim) + 1>>]] IN
                  Log([op |-> "cell", d |-> dim, C |-> lst(c), vol |-> Det(dim, c), want |-> lst(Recip(dim, c)), modes |-> m])
ChooseModes == /\ ~Gen /\ n = 0 /\ n' = 1
               /\ \E dim \in {2, 3} : \E m \in ModeLists(dim) : d' = dim /\ C' = Id(dim, 1) /\ modes' = m
               /\ Log([op |-> "modes"])
Live == n > 0 /\ n <= MaxOps /\ n' = n + 1 /\ UNCHANGED <<d, C, modes>>
Hkl == Live /\ \E m \in (IF Gen THEN {[i \in 1..3 |-> R({y \in -4..4 : i > 0})]} ELSE {<<1, 2, -1>>}) :
         Log([op |-> "hkl", m |-> m, want |-> Vec(d, Recip(d, C), m)])
Chg == Live /\ \E m \in (IF Gen THEN {TLCEval([i \in 1..3 |-> R({y \in -3..3 : i > 0})])} ELSE {<<1, 2, -1>>}),
                 e \in (IF Gen THEN {TLCEval([x \in Ix(d) |-> R({y \in -3..3 : x[1] > 0})])} ELSE {[x \in Ix(d) |-> ((x[1] * 5 + x[2] * 3) % 4) - 1]}) :
         Log([op |-> "change", m |-> m, E |-> ListM(e), want |-> ListM(Change(d, C, e)) \o Vec(d, Change(d, C, e), m)])
Dens == /\ Live /\ Gen
        /\ \E k \in Pick(DOMAIN modes), q \in Pick({4, 6}) : \E p \in {TLCEval([i \in 1..3 |-> R({y \in -7..7 : i > 0})])} :
             Log([op |-> "density", k |-> k, p |-> p, q |-> q, want |-> <<Density2(d, modes[k], p, q)>>])
Mean == /\ Live /\ Gen
        /\ \E p \in Pick(1..4) : \E e \in Pick(Exps(Len(modes), p)) :
             Log([op |-> "mean", e |-> e, want |-> <<Ways(d, Spread(modes, e, 1), 4)>>])
Coefs(P) == {r.c : r \in P} \ {0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* terms much smaller than the largest are dropped by design *)
Weighable(c3, c4, P3, P4) == LET S == {2 * (IF c3 < 0 THEN -c3 ELSE c3) * c : c \in Coefs(P3)} \cup {c4 * c : c \in Coefs(P4)} IN
                             MinOf(S \ {0}) * 1000 > MaxOf(S)
Solve == /\ Live /\ Gen /\ (d = 2 \/ Len(modes) <= 2)
         /\ \E c3 \in Pick({1, 2, 3, -1}), c4 \in Pick({1, 2, 3}), ex \in Pick({"octants", "one", "several"}) :
            \E P3 \in {Poly(d, modes, 3, 4)}, P4 \in {Poly(d, modes, 4, 4)} :
              /\ Weighable(c3, c4, P3, P4)
              /\ \E st \in {TLCEval([i \in 1..4 |-> [k \in 1..Len(modes) |-> R({y \in -9..9 : i + k > 0})]])} :
                 Log([op |-> "solve", c3 |-> c3, c4 |-> c4, p3 |-> P3, p4 |-> P4, explorer |-> ex, starts |-> st, want |-> <<>>])
(* with one mode MatchElasticProp cannot start (see DESIGN.md) *)
Fit == /\ Live /\ Gen /\ Len(modes) > 1
       /\ \E h \in {TLCEval([i \in 1..Len(modes) |-> R({y \in 1..9 : i > 0})])}, amp \in {TLCEval([i \in 1..Len(modes) |-> R({y \in 1..9 : i > 0})])} :
          LET Q == Gram(d, Recip(d, C)) IN
            Log([op |-> "fit", h |-> h, amp |-> amp, bulk |-> [i \in DOMAIN modes |-> Bulk9(d, Q, modes[i])],
                 shear |-> IF d = 3 THEN [i \in DOMAIN modes |-> Shear15(Q, modes[i])] ELSE <<>>,
                 beta |-> [i \in DOMAIN modes |-> Cardinality(Equiv(d, modes[i]))], want |-> <<>>])
Ideal == /\ Live /\ Gen
         /\ \E c3 \in Pick(-3..3), c4 \in Pick(-3..3), x \in Pick(-5..5) :
              Log([op |-> "ideal", c3 |-> c3, c4 |-> c4, x |-> x, want |-> <<Ideal12(c3, c4, x), IdealDeriv6(c3, c4, x)>>])
Quad == /\ Live /\ Gen
        /\ \E dim \in Pick({2, 3}), o \in Pick(2..6) : \E p \in {TLCEval([i \in 1..3 |-> R({y \in 0..(2 * o - 1) : i > 0})])} :
             Log([op |-> "quad", d |-> dim, order |-> o, p |-> p, want |-> <<(p[1] + 1) * (p[2] + 1) * (IF dim = 3 THEN p[3] + 1 ELSE 1)>>])
Octants == /\ Live /\ Gen
           /\ \E k \in Pick(1..4) : \E x \in {TLCEval([i \in 1..k |-> R({y \in 1..9 : i > 0})])} :
                Log([op |-> "starts", x |-> x, set |-> Starts(x), want |-> <<>>])
Blend == /\ Live /\ Gen
         /\ \E s \in Pick({<<2, 3>>, <<4, 4>>, <<4, 3>>, <<2, 2>>, <<3, 5>>, <<2, 3, 2>>, <<3, 3, 3>>}) :
            LET N == IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3] IN
            \E c \in {TLCEval([i \in 1..N |-> R({y \in -2..6 : i > 0})])} :
              Log([op |-> "blend", shape |-> s, c |-> c, deriv |-> [i \in 1..N |-> DBlend8(c[i])], want |-> [i \in 1..N |-> Blend32(c[i])]])
Corr == /\ Live /\ Gen
        /\ \E T \in Pick(0..2), k \in Pick(0..6), m \in Pick(1..3) :
           \E pks \in {TLCEval([i \in 1..m |-> <<R({y \in {1, 2, 4} : i > 0}), R({y \in {1, 2} : i > 0}), R({y \in 0..6 : i > 0})>>])} :
             Log([op |-> "corr", T |-> T, at |-> k, peaks |-> pks, want |-> <<MinLog8(T, pks, k)>>])
Named == /\ Live /\ Gen
         /\ \E k \in Pick(DOMAIN Lattices) : Log([op |-> "named", name |-> k, d |-> Lattices[k].d, short |-> Lattices[k].short, n |-> Lattices[k].n, vol2 |-> Lattices[k].vol2, want |-> <<>>])
Next == Choose \/ ChooseModes \/ Hkl \/ Chg \/ Dens \/ Mean \/ Solve \/ Fit \/ Ideal \/ Quad \/ Octants \/ Blend \/ Corr \/ Named
Spec == Init /\ [][Next]_vars
View == <<d, C, modes, n>>
(* ---- laws ---- *)
(* Simpson's rule is exact here *)
ASSUME \A j \in {-4, -2, 0, 2, 4, 6} : 3 * (Blend32(j + 2) - Blend32(j)) = DBlend8(j) + 4 * DBlend8(j + 1) + DBlend8(j + 2)
Ready == n = 1 /\ ~Gen
Duality == Ready => (Dual(d, C) /\ Det(d, Recip(d, C)) = (IF d = 2 THEN Det(d, C) ELSE Det(d, C) * Det(d, C)))
ChangeOk == Ready => StaysDual(d, C, [x \in Ix(d) |-> ((x[1] * 5 + x[2] * 3) % 4) - 1])
(* a reciprocal vector times a cell vector is the Miller index *)
MillerOk == Ready => LET m == <<2, -1, 3>>  v == Vec(d, Recip(d, C), m) IN \A j \in 1..d : LET g(i) == v[i] * C[<<i, j>>] IN SumN(g, d) = m[j] * Det(d, C)
Union2 == Equiv(d, modes[1]) \cup Equiv(d, modes[2])
(* with all amplitudes one the polynomial counts the closed polygons of all vectors *)
Total(P) == LET f(r) == r.c IN SumOver(P, f)
Closed3 == LET f(u) == Cardinality({v \in Union2 : Opp(Add(u, v)) \in Union2}) IN SumOver(Union2, f)
Closed4 == LET P == Pairs(Union2, Union2, Box(d, 4))  f(v) == P[v] * P[v] IN SumOver({v \in DOMAIN P : P[v] # 0}, f)
Polygons == (Ready /\ modes # <<>>) => (Total(Poly(d, modes, 3, 4)) = Closed3 /\ Total(Poly(d, modes, 4, 4)) = Closed4)
(* the mean of a product does not depend on the order of its factors, and a mode has mean zero *)
MeanOk == (Ready /\ modes # <<>>) => LET a == modes[1]  b == modes[2] IN
            /\ Ways(d, <<a>>, 4) = 0 /\ Ways(d, <<a, a>>, 4) = Cardinality(Equiv(d, a)) /\ Ways(d, <<a, b>>, 4) = 0
            /\ Ways(d, <<a, b, a, b>>, 4) = Ways(d, <<b, b, a, a>>, 4) /\ Ways(d, <<a, b, b>>, 4) = Ways(d, <<b, b, a>>, 4)
(* the table of named lattices against cells of them, in units of a/2 *)
Ex == [SC2D |-> Id(2, 2), SC3D |-> Id(3, 2), FCC |-> [x \in Ix(3) |-> IF x[1] = x[2] THEN 0 ELSE 1],
       BCC |-> [x \in Ix(3) |-> IF x[1] = x[2] THEN -1 ELSE 1]]
Grams == [k \in DOMAIN Ex |-> Gram(Lattices[k].d, Ex[k])] @@ ("Triangular2D" :> [x \in Ix(2) |-> IF x[1] = x[2] THEN 4 ELSE 2])
ASSUME \A k \in DOMAIN Lattices : LET l == Lattices[k]  G == Grams[k] IN
          Shortest(l.d, G) = l.short /\ Neighbours(l.d, G) = l.n /\ Det(l.d, G) = l.vol2
Emit == (Gen /\ n = MaxOps + 1) => PrintT("@@P " \o ToJson(hist))
=============================================================================
