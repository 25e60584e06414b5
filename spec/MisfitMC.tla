----------------------------- MODULE MisfitMC -------------------------------
(* The elastic misfit term: -dE/dx for                                       *)
(*   E = 1/2 C (eps - eps* H(x)) (eps - eps* H(x)),  H = 3 x^2 - 2 x^3,      *)
(* where the strain eps is in equilibrium with the misfit. Fields vary along *)
(* one axis and are given in halves, so that everything is an integer.       *)
EXTENDS Elastic, Json
CONSTANTS Gen, MaxSteps
VARIABLES n, case, steps
vars == <<n, case, steps>>
R(S) == RandomElement({x \in S : n >= 0})
Twice(w) == (3 * w * w - w * w * w) \div 2         \* 2 H(w / 2)
Deriv(w) == 6 * w - 3 * w * w                      \* 2 H'(w / 2)
Values == {0, 2, 1, 4, -1, -2}
Orthos == LET d == TLCEval([i \in 1..6 |-> IF i <= 3 THEN R({y \in {2, 4} : i > 0}) ELSE R({y \in {1, 2} : i > 0})])  o == TLCEval([i \in 1..3 |-> R({y \in {0, 1} : i > 0})]) IN d \o o
RandSym(S) == LET r == TLCEval([x \in 0..8 |-> R({y \in S : x >= 0})]) IN Mat(LAMBDA i, j : IF i <= j THEN r[3 * i + j] ELSE r[3 * j + i])
(* in two dimensions there are no shears out of the plane *)
Flat(m) == Mat(LAMBDA i, j : IF i # j /\ (i = 2 \/ j = 2) THEN 0 ELSE m[3 * i + j])
ListM(m) == [i \in 1..9 |-> m[i - 1]]
Dot(a, b) == LET f(y) == a[y] * b[y] IN Sum9(f)
(* 4 * SlabUnit * term, at every place along the axis *)
Term(T, ax, m, w) == LET N == Len(w)  U == SlabUnit(N)  A == Contract(T, m)
                         e == SlabStrain(T, ax, [x \in 1..N |-> Scaled(A, Twice(w[x]))]) IN
                     TLCEval([x \in 1..N |-> Deriv(w[x]) * Dot(A, Minus(e[x], Scaled(m, Twice(w[x]) * U)))])
Init == n = 0 /\ case = <<>> /\ steps = <<>>
Choose == /\ n = 0 /\ n' = 1 /\ steps' = steps
          /\ \E dim \in {R({2, 3})} : \E o \in {Orthos}, m \in {RandSym(-1..1)}, sh \in {TLCEval([d \in 1..dim |-> R({y \in {1, 2, 3, 4, 5, 6} : d > 0})])} :
               case' = [shape |-> sh, voigt |-> OrthoVoigt(o), misfit |-> ListM(IF dim = 2 THEN Flat(m) ELSE m), s |-> R({-1, 1})]
Mis == [x \in 0..8 |-> case.misfit[x + 1]]
Step == /\ n > 0 /\ n <= MaxSteps /\ n' = n + 1 /\ case' = case
        /\ \E ax \in {R(1..Len(case.shape))} : \E w \in {TLCEval([x \in 1..case.shape[ax] |-> R({y \in Values : x > 0})])} :
             steps' = Append(steps, [axis |-> ax - 1, w |-> w, want |-> Term(FromVoigt(case.voigt), ax - 1, Mis, w), den |-> 4 * SlabUnit(Len(w))])
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars
(* where the field is zero or one, the term vanishes; without misfit it vanishes everywhere *)
Pure == \A i \in 1..Len(steps) : \A x \in 1..Len(steps[i].w) :
          /\ steps[i].w[x] \in {0, 2} => steps[i].want[x] = 0
          /\ (\A y \in 1..9 : case.misfit[y] = 0) => steps[i].want[x] = 0
(* a uniform field is not held back by anything: -2 * energy of the misfit * H H' *)
Uniform == \A i \in 1..Len(steps) : LET s == steps[i]  T == FromVoigt(case.voigt) IN
             (\A x \in 1..Len(s.w) : s.w[x] = s.w[1]) =>
               \A x \in 1..Len(s.w) : s.want[x] = -Deriv(s.w[1]) * Twice(s.w[1]) * Energy2(T, Mis) * SlabUnit(Len(s.w))
Emit == (Gen /\ n > MaxSteps) => PrintT("@@M " \o ToJson([case |-> case, other |-> TLCEval([d \in 1..Len(case.shape) |-> R({y \in {2, 3, 4, 5, 6} : d > 0})]), steps |-> steps]))
=============================================================================
