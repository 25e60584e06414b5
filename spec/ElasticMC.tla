----------------------------- MODULE ElasticMC ------------------------------
(* A tensor is made, turned, and used. With Gen, random behaviours are       *)
(* written out with everything that must be observed; without, all small     *)
(* ones are explored and the symmetries are checked.                         *)
EXTENDS Elastic, Json
CONSTANTS Gen, MaxOps
VARIABLES T, D, sym, stable, n, hist
vars == <<T, D, sym, stable, n, hist>>
Pick(S) == IF Gen THEN {RandomElement({x \in S : n >= 0})} ELSE S
R(S) == RandomElement({x \in S : n >= 0})
Seq36(x) == [i \in 1..Len(x) |-> x[i]]
Listed(T_) == [i \in 1..81 |-> T_[i - 1]]
ListM(m) == [i \in 1..9 |-> m[i - 1]]
Init == T = [x \in 0..80 |-> 0] /\ D = 0 /\ sym = TRUE /\ stable = FALSE /\ n = 0 /\ hist = <<>>
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE <<r.op>>
Made(op, args, t, d, sy, st) == T' = t /\ D' = d /\ sym' = sy /\ stable' = st /\ Log([op |-> op, args |-> args, want |-> Listed(t), den |-> d])
Isos == {<<2, 0, 1>>, <<1, 1, 4>>, <<3, 1, 3>>, <<2, -1, 4>>, <<5, 2, 5>>, <<1, 1, 8>>}
MakeIso == \E a \in Pick(Isos) : Made("iso", a, Iso(a[1], a[2], a[3]), IsoDen(a[2], a[3]), TRUE, TRUE)
MakeCubic == \E a \in Pick(IF Gen THEN {x \in (2..6) \X (-1..4) \X (1..5) : x[2] < x[1]} ELSE {<<3, 1, 2>>, <<4, -1, 1>>}) :
                Made("cubic", a, Cubic(a[1], a[2], a[3]), 1, TRUE, TRUE)
(* general: any 36 constants; symmetric and positive ones can also be solved for *)
VoigtAny == IF Gen THEN {TLCEval([i \in 1..36 |-> R({y \in -4..6 : i > 0})])} ELSE {[i \in 1..36 |-> i - 18]}
VoigtSym == IF Gen THEN {LET up == TLCEval([i \in 0..35 |-> R({y \in -1..1 : i >= 0})])  dg == TLCEval([i \in 0..5 |-> R({y \in 6..9 : i >= 0})]) IN
                         [x \in 1..36 |-> LET a == (x - 1) \div 6  b == (x - 1) % 6 IN IF a = b THEN dg[a] ELSE IF a < b THEN up[6 * a + b] ELSE up[6 * b + a]]}
            ELSE {[x \in 1..36 |-> LET a == (x - 1) \div 6  b == (x - 1) % 6 IN IF a = b THEN 6 + (a % 3) ELSE ((a + b) % 3) - 1]}
MakeVoigt == \E v \in VoigtAny : Made("voigt", v, FromVoigt(v), 1, FALSE, FALSE)
MakeVoigtSym == \E v \in VoigtSym : Made("voigt", v, FromVoigt(v), 1, TRUE, TRUE)
Make == n = 0 /\ (MakeIso \/ MakeCubic \/ MakeVoigt \/ MakeVoigtSym \/ (Gen /\ MakeVoigtSym)) /\ n' = 1
(* ---- turning ---- *)
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-4, 3, 5>>, <<-3, -4, 5>>, <<5, 12, 13>>, <<-12, 5, 13>>}
Pow4(h) == h * h * h * h
Live == n > 0 /\ n <= MaxOps
Same == UNCHANGED <<T, D, sym, stable>>
Turn == /\ Live /\ n' = n + 1
        /\ \E ax \in Pick(I3), a \in Pick({x \in (IF Gen THEN Angles ELSE {<<0, 1, 1>>, <<3, -4, 5>>}) : D <= 500000 \div Pow4(x[3])}) :
             /\ T' = Rotate(T, Rot(ax, a[1], a[2], a[3])) /\ D' = D * Pow4(a[3])
             /\ Log([op |-> "turn", args |-> <<ax>> \o a, matrix |-> ListM(Rot(ax, a[1], a[2], a[3])), want |-> Listed(T'), den |-> D'])
        /\ UNCHANGED <<sym, stable>>
Small == D <= 625
RandMat(S) == LET r == [x \in 0..8 |-> R({y \in S : x >= 0})] IN TLCEval(r)
RandSym(S) == LET r == TLCEval([x \in 0..8 |-> R({y \in S : x >= 0})]) IN Mat(LAMBDA i, j : IF i <= j THEN r[3 * i + j] ELSE r[3 * j + i])
Mats == IF Gen THEN {RandMat(-3..3)} ELSE {[x \in 0..8 |-> ((x * x) % 5) - 2]}
SymMats == IF Gen THEN {RandSym(-2..2)} ELSE {Mat(LAMBDA i, j : ((i + j * i + j) % 4) - 1)}
ContractIt == Live /\ Small /\ n' = n + 1 /\ Same
              /\ \E m \in Mats : Log([op |-> "contract", args |-> ListM(m), want |-> ListM(Contract(T, m)), den |-> D])
EnergyIt == Live /\ Small /\ n' = n + 1 /\ Same
            /\ \E m \in Mats : Log([op |-> "energy", args |-> ListM(m), want |-> <<Energy2(T, m)>>, den |-> D])
(* ---- equilibrium; k: a sequence of frequencies over q, u: complex displacements <<re, im>> ---- *)
Ks(q) == TLCEval({[c \in 1..3 |-> R({y \in (-(q \div 2))..(q \div 2) : i + c > 0})] : i \in 1..3} \cup {<<0, 0, 0>>, [c \in 1..3 |-> IF c = 1 THEN q \div 2 ELSE 0]})
Us == LET v == [i \in 1..2 |-> [c \in 1..3 |-> R({y \in -3..3 : i + c > 0})]] IN TLCEval(v)
Nodes(q) == LET K == Ks(q) IN TLCEval([k \in K |-> Us])
NodeList(nd, f(_, _)) == LET K == DOMAIN nd  ks == CHOOSE s \in [1..Cardinality(K) -> K] : {s[i] : i \in DOMAIN s} = K
                         IN TLCEval([i \in 1..Cardinality(K) |-> f(ks[i], nd[ks[i]])])
Solve == /\ Gen /\ Live /\ stable /\ Small /\ n' = n + 1 /\ Same
         /\ \E q \in Pick({4, 8, 5, 7}) : \E nd \in {Nodes(q)} :
              Log([op |-> "solve", q |-> q, den |-> D,
                   nodes |-> NodeList(nd, LAMBDA k, u : [k |-> k, force |-> <<ForceFor(T, k, u[1]), ForceFor(T, k, u[2])>>,
                                                         want |-> <<Solution(k, u[1]), Solution(k, u[2])>>])])
Strain == /\ Gen /\ Live /\ n' = n + 1 /\ Same
          /\ \E q \in Pick({4, 8, 5, 6}) : \E nd \in {Nodes(q)} :
              Log([op |-> "strain", q |-> q,
                   nodes |-> NodeList(nd, LAMBDA k, u : [k |-> k, u |-> u,
                        want |-> [x \in 1..9 |-> <<StrainOf(k, q, u[1], (x - 1) \div 3, (x - 1) % 3), StrainOf(k, q, u[2], (x - 1) \div 3, (x - 1) % 3)>>]])])
Force == /\ Gen /\ Live /\ Small /\ n' = n + 1 /\ Same
         /\ \E q \in Pick({4, 8, 5}), dim \in Pick({2, 3}) : \E nd \in {Nodes(q)}, m \in {RandSym(-2..2)} :
              Log([op |-> "force", q |-> q, den |-> D, misfit |-> ListM(m), dim |-> dim,
                   nodes |-> NodeList(nd, LAMBDA k, u : LET kk == IF dim = 3 THEN k ELSE <<k[1], k[2], 0>> IN
                        [k |-> k, u |-> u, want |-> <<MisfitForce(T, m, kk, u[1][1]), MisfitForce(T, m, kk, u[2][1])>>])])
(* the strain made by the displacement i * u has the real part -StrainOf; in two dimensions only the strains and misfits in
   the plane take part *)
Planar(m) == Mat(LAMBDA i, j : IF i = 2 \/ j = 2 THEN 0 ELSE m[3 * i + j])
Perturb == /\ Gen /\ Live /\ Small /\ n' = n + 1 /\ Same
           /\ \E q \in Pick({4, 8, 5}), dim \in Pick({2, 3}) : \E nd \in {Nodes(q)}, m0 \in {RandSym(-2..2)} :
                LET m == IF dim = 3 THEN m0 ELSE Planar(m0) IN
                Log([op |-> "perturb", q |-> q, den |-> D, misfit |-> ListM(m), dim |-> dim,
                     nodes |-> NodeList(nd, LAMBDA k, u :
                          LET kk == IF dim = 3 THEN k ELSE <<k[1], k[2], 0>>
                              uu == IF dim = 3 THEN u[1] ELSE <<u[1][1], u[1][2], 0>>
                              e == Mat(LAMBDA i, j : -StrainOf(kk, q, uu, i, j))
                              f == PerturbForce(T, m, e, kk, u[2][1]) IN
                          [k |-> k, u |-> uu, shape |-> u[2][1], want |-> IF dim = 3 THEN f ELSE <<f[1], f[2], 0>>])])
(* ---- slabs: orthotropic constants of the matrix (those of T are not used) and of the inclusion ---- *)
Orthos == LET d == TLCEval([i \in 1..6 |-> IF i <= 3 THEN R({y \in {2, 4} : i > 0}) ELSE R({y \in {1, 2} : i > 0})])  o == TLCEval([i \in 1..3 |-> R({y \in {0, 1} : i > 0})]) IN d \o o
Profile(N) == LET h == TLCEval([x \in 1..N |-> R({y \in {0, 1} : x > 0})]) IN IF SumTo(h, N) = 0 THEN [h EXCEPT ![1] = 1] ELSE h
Slab == /\ Gen /\ Live /\ n' = n + 1 /\ Same
        /\ \E N \in Pick({2, 3, 4, 5, 6, 8}), ax \in Pick(I3), dim \in Pick({2, 3}) : \E o \in {Orthos}, m \in {RandSym(-1..1)}, h \in {Profile(N)} :
             LET t == FromVoigt(OrthoVoigt(o))  a == IF dim = 2 THEN ax % 2 ELSE ax  r == SlabTotal(t, t, a, m, h, FALSE) IN
             Log([op |-> "slab", voigt |-> OrthoVoigt(o), axis |-> a, dim |-> dim, profile |-> h, misfit |-> ListM(m), want |-> <<r[1]>>, den |-> SlabScale(N, FALSE)])
(* the inclusion as an ellipsoid so flat that it is a slab of 2 w + 1 layers around layer N \div 2 *)
Flat == /\ Gen /\ Live /\ n' = n + 1 /\ Same
        /\ \E N \in Pick({3, 4, 5, 6}), ax \in Pick(I3), w \in Pick({0, 1}), inc \in Pick(BOOLEAN), pert \in Pick(BOOLEAN) :
           \E o \in {Orthos}, p \in {Orthos}, m \in {RandSym(-1..1)} :
             LET NN == IF pert /\ inc THEN (IF N > 4 THEN 4 ELSE N) ELSE N
                 t == FromVoigt(OrthoVoigt(o))  u == IF inc THEN FromVoigt(OrthoVoigt(p)) ELSE t
                 h == [x \in 1..NN |-> IF (x - 1 - NN \div 2) \in (-w)..w THEN 1 ELSE 0]
                 r == SlabTotal(t, u, ax, m, h, pert /\ inc) IN
             Log([op |-> "flat", voigt |-> OrthoVoigt(o), inc |-> inc, voigtinc |-> OrthoVoigt(p), pert |-> pert, axis |-> ax, w |-> w, N |-> NN, misfit |-> ListM(m),
                  want |-> <<r[1]>>, everywhere |-> r[2], den |-> SlabScale(NN, pert /\ inc)])
(* how the energy of an ellipsoid answers to changes of its description: exchanged axes, twice the misfit, three times the
   constants, the inclusion's constants given though equal, the other entry point *)
Ellipsoid == /\ Gen /\ Live /\ n' = n + 1 /\ Same
             /\ \E N \in Pick({4, 5, 6, 7}), perm \in Pick(Permutations(I3)) : \E o \in {Orthos}, m \in {RandSym(-2..2)}, half \in {TLCEval([i \in 1..3 |-> R({y \in {2, 3, 5} : i > 0})])} :
                  Log([op |-> "ellipsoid", N |-> N, perm |-> [i \in 1..3 |-> perm[i - 1]], voigt |-> OrthoVoigt(o), misfit |-> ListM(m), half |-> half,
                       want |-> <<1, 4, 3, 1, 1>>, den |-> 1])
Next == Make \/ Turn \/ ContractIt \/ EnergyIt \/ Solve \/ Strain \/ Force \/ Perturb \/ Slab \/ Flat \/ Ellipsoid
Spec == Init /\ [][Next]_vars
View == <<T, D, sym, n>>
(* ---- properties ---- *)
Symmetric == n > 0 => Minor(T) /\ (sym => Major(T))
Orthogonal == n = 0 => \A ax \in I3 : \A a \in Angles : LET r == Rot(ax, a[1], a[2], a[3]) IN
                 RotMat(Mat(LAMBDA i, j : Dl(i, j)), r) = Mat(LAMBDA i, j : a[3] * a[3] * Dl(i, j))
RotateBack == (n > 0 /\ D < 20) => \A ax \in I3 : \A a \in {<<0, 1, 1>>, <<3, 4, 5>>} :
                 LET r == Rot(ax, a[1], a[2], a[3]) IN Rotate(Rotate(T, r), Transp(r)) = TLCEval([x \in 0..80 |-> Pow4(a[3]) * Pow4(a[3]) * T[x]])
EnergyKept == (n > 0 /\ D < 20) => \A ax \in I3 : \A a \in {<<0, 1, 1>>, <<3, 4, 5>>} :
                 LET r == Rot(ax, a[1], a[2], a[3])  m == Mat(LAMBDA i, j : IF i = j THEN i - 1 ELSE 1) IN
                 Energy2(Rotate(T, r), RotMat(m, r)) = Pow4(a[3]) * Pow4(a[3]) * Energy2(T, m)
IsotropicStays == [][ (n = 1 /\ hist = <<"iso">> /\ n' = 2 /\ D' # D) => T' = [x \in 0..80 |-> (D' \div D) * T[x]] ]_vars
Emit == (Gen /\ n > MaxOps) => PrintT("@@E " \o ToJson(hist))
=============================================================================
