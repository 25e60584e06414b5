------------------------------ MODULE TermsMC -------------------------------
(* Models made of ready-made terms. A behaviour chooses a grid, the terms,   *)
(* the equations, and then values of the fields a few times, as if the       *)
(* fields had moved on; what has to be observed in one step from each of     *)
(* them is written out.                                                      *)
EXTENDS Terms, Json
CONSTANTS Gen, Shapes, MaxSteps
VARIABLES g, names, terms, eqs, F, n, steps
vars == <<g, names, terms, eqs, F, n, steps>>
R(S) == RandomElement({x \in S : n >= 0})
RL(S, m) == LET r == TLCEval([i \in 1..m |-> R({x \in S : i > 0})]) IN r
NameSets == {<<"a", "b", "c">>, <<"a", "a_0", "a_1">>, <<"u", "v", "uv">>, <<"concentration", "concentration1", "concentration2">>}
Vals == -2..2
RandF(nm, N) == TLCEval([m \in {nm[i] : i \in DOMAIN nm} |-> LET lo == R({<<-2, 2>>, <<0, 1>>, <<-1, 2>>, <<1, 1>>}) IN RL(lo[1]..lo[2], N)])
Monomial(nm) == [c |-> R({-1, 1, 2}), f |-> LET m == R({0, 1, 1, 2}) IN TLCEval([i \in 1..m |-> R({nm[j] : j \in {y \in DOMAIN nm : i > 0}})])]
RPoly(nm) == LET m == R({1, 1, 2}) IN TLCEval([i \in 1..m |-> IF i > 0 THEN Monomial(nm) ELSE Monomial(nm)])
AnyOf(nm) == R({nm[j] : j \in DOMAIN nm})
Ops == {"adv", "divgrad", "wlap", "sqgrad", "hessian", "charge", "mix", "mixfunc", "penalty", "pair", "pairexp", "visc"}
Peaks == LET m == R({1, 2}) IN TLCEval([i \in 1..m |-> [loc |-> R({x \in 0..8 : i > 0}), width |-> R({x \in 1..4 : i > 0}), dens |-> R({x \in 1..3 : i > 0}), planes |-> R({x \in 1..6 : i > 0})]])
RTerm(op, nm) ==
    CASE op = "adv" -> [op |-> op, field |-> AnyOf(nm), vel |-> RL({nm[j] : j \in DOMAIN nm}, g.D)]
      [] op = "divgrad" -> [op |-> op, field |-> AnyOf(nm), poly |-> RPoly(nm)]
      [] op = "wlap" -> [op |-> op, field |-> AnyOf(nm), poly |-> RPoly(nm)]
      [] op = "sqgrad" -> [op |-> op, field |-> AnyOf(nm), factor |-> R({-2, 1, 2, 3})]
      [] op = "hessian" -> [op |-> op, field |-> AnyOf(nm), K |-> RL(-2..3, g.D * g.D)]
      [] op = "charge" -> [op |-> op, field |-> AnyOf(nm), ext |-> RL(-2..2, g.D), sigma |-> LET m == IF g.D = 2 THEN 3 ELSE 6 IN TLCEval([x \in 1..g.N |-> RL({y \in -1..2 : x > 0}, m)])]
      [] op \in {"mix", "mixfunc"} -> [op |-> op, field |-> AnyOf(nm), A |-> R({-1, 1, 2, 3}), c3 |-> R(-1..2), c4 |-> R(-1..2), lap |-> R(BOOLEAN)]
      [] op = "penalty" -> [op |-> op, field |-> AnyOf(nm), A |-> R({1, 2, 5}), p |-> R(2..5)]
      [] op \in {"pair", "pairexp"} -> [op |-> op, field |-> AnyOf(nm), A |-> R({-1, 1, 2}), lap |-> R(BOOLEAN), temp |-> R(0..3), peaks |-> Peaks]
      [] op = "visc" -> [op |-> op, field |-> AnyOf(nm), A |-> R({1, 2}), threshold |-> R(1..6), power |-> R({1, 2, 4})]
Carried(i) == [op |-> "adv", field |-> IF g.D = 3 THEN names[1] ELSE AnyOf(names), vel |-> IF g.D = 2 THEN <<names[1], names[2]>> ELSE IF i = 1 THEN names ELSE <<names[3], names[1], names[2]>>]
Init == g = Grid(<<1, 1>>) /\ names = <<>> /\ terms = <<>> /\ eqs = <<>> /\ F = <<>> /\ n = 0 /\ steps = <<>>
Choose == /\ n = 0 /\ n' = 1
          /\ \E sh \in {R(Shapes)} : g' = Grid(sh)
          /\ names' = LET s == R(NameSets) IN IF Len(g'.sh) = 3 THEN s ELSE SubSeq(s, 1, R({2, 3}))
          /\ UNCHANGED <<terms, eqs, F, steps>>
Register == /\ n = 1 /\ n' = 2
            /\ \E m \in {R(1..4)} : terms' = LET o == RL(Ops, m)  ts == TLCEval([i \in 1..m |-> RTerm(o[i], names)]) IN
                                          \* often two terms of a kind for the same field
                                          IF m = 1 THEN ts
                                          ELSE LET r == R(1..6) IN
                                          IF r <= 2 THEN [ts EXCEPT ![2] = [RTerm(ts[1].op, names) EXCEPT !.field = ts[1].field]]
                                          \* or the same term for another field
                                          ELSE IF r = 3 THEN [ts EXCEPT ![2] = [ts[1] EXCEPT !.field = AnyOf(names)]]
                                          \* or velocities whose names read the same when written one after the other
                                          ELSE IF r = 4 THEN [ts EXCEPT ![1] = Carried(1), ![2] = Carried(2)]
                                          ELSE ts
            \* two mixtures of one field are one mixture
            /\ \A i, j \in DOMAIN terms' : (terms'[i].op = "mix" /\ terms'[j].op = "mix" /\ terms'[i].field = terms'[j].field) => i = j
            /\ UNCHANGED <<g, names, eqs, F, steps>>
(* an equation: signed terms, under Laplacians; terms that belong to a field stand in the equation of that field only *)
Usable(f) == {i \in DOMAIN terms : ~Only(terms[i].op) \/ terms[i].field = f}
RefSet(f) == IF Usable(f) = {} THEN <<>>
             ELSE LET m == R({0, 1, 1, 2, 3}) IN TLCEval([i \in 1..m |-> [t |-> R({x \in Usable(f) : i > 0}), s |-> R({x \in {-1, 1} : i > 0}), l |-> R({x \in {0, 10, 20, 1} : i > 0}) % 10]])
Equate == /\ n = 2 /\ n' = 3
          /\ eqs' = TLCEval([j \in DOMAIN names |-> RefSet(names[j])])
          /\ UNCHANGED <<g, names, terms, F, steps>>
Wants(j, FF) == [i \in 1..Len(eqs[j]) |-> LET e == eqs[j][i]  ps == Parts(g, FF, terms[e.t]) IN
                    [t |-> e.t, parts |-> [q \in 1..Len(ps) |-> Under(g, ps[q], e.s, e.l)]]]
Extra(t, FF) == CASE t.op = "charge" -> [current |-> CurrentTab(g, FF, t), den |-> 90 * g.N]
                  [] t.op \in {"mix", "mixfunc"} -> [energy |-> MixEnergy12(g, FF, t), den |-> 12, eval |-> [x \in 1..g.N |-> MixEval(FF, t, x)]]
                  [] t.op \in {"pair", "pairexp"} -> [energy |-> PairEnergy(g, FF, t), den |-> 2 * g.N]
                  [] t.op \in {"divgrad", "adv", "sqgrad"} -> [grad |-> [d \in 1..g.D |-> GradN(g, FF[t.field], d)], den |-> g.N]
                  [] OTHER -> [none |-> 0]
Step == /\ n >= 3 /\ n < 3 + MaxSteps /\ n' = n + 1
        /\ F' = RandF(names, g.N)
        /\ steps' = IF ~Gen THEN steps ELSE Append(steps, [fields |-> [j \in DOMAIN names |-> F'[names[j]]], want |-> [j \in DOMAIN names |-> Wants(j, F')],
                                     extra |-> [i \in DOMAIN terms |-> Extra(terms[i], F')]])
        /\ UNCHANGED <<g, names, terms, eqs>>
Next == Choose \/ Register \/ Equate \/ Step
Spec == Init /\ [][Next]_vars
(* ---- what the terms have in common, whatever their parameters ---- *)
T == n > 3
Mean(p) == p.w.r[1] = 0 /\ p.w.i[1] = 0
(* divergences change no total *)
Conserving == T => \A i \in DOMAIN terms : terms[i].op \in {"divgrad", "charge"} => Mean(Parts(g, F, terms[i])[1])
(* rates are transforms of real fields *)
IsReal(p) == LET h == IDFT(g, p.w) IN p.own \/ \A x \in 1..g.N : h.i[x] = 0
AllReal == T => \A i \in DOMAIN terms : \A p \in {Parts(g, F, terms[i])[q] : q \in 1..Len(Parts(g, F, terms[i]))} : IsReal(p)
One == <<[c |-> 1, f |-> <<>>]>>
Smooth(f) == \A d \in 1..g.D : \A k \in 1..g.N : g.k[k][d] = 2 => (Real(g, f).r[k] = 0 /\ Real(g, f).i[k] = 0)
(* a constant in front makes divergence of gradient, weighted Laplacian and Hessian with the unit matrix the same for what has no frequency of one half *)
Agree == T => LET nm == names[1]  f == Real(g, F[nm])
                  lap == Times(g, f, [k \in 1..g.N |-> -g.N * K2(g, k)])
                  unit == [op |-> "hessian", field |-> nm, K |-> [e \in 1..(g.D * g.D) |-> IF (e - 1) \div g.D = (e - 1) % g.D THEN 2 ELSE 0]] IN
              /\ WeightedLaplacian(g, F, [field |-> nm, poly |-> One]).w = lap
              /\ Times(g, f, [k \in 1..g.N |-> g.N * (Hessian(g, F, unit).w.r[k] \div 2)]) = lap
              /\ Smooth(F[nm]) => DivGrad(g, F, [field |-> nm, poly |-> One]).w = lap
(* div(f grad f) = f lap f + (grad f)^2 holds for the mean: N^2 * mean; up to the frequency of one half *)
Green == T => LET nm == names[1]  me == <<[c |-> 1, f |-> <<nm>>]>> IN
              Smooth(F[nm]) => g.N * WeightedLaplacian(g, F, [field |-> nm, poly |-> me]).w.r[1] + SquaredGradient(g, F, [field |-> nm, factor |-> 1]).w.r[1] = 0
(* the current of a conductivity tensor that is the unit matrix is the field itself: the charge decays *)
Decay == T => LET nm == names[1]  iso == [field |-> nm, ext |-> [d \in 1..g.D |-> 1], sigma |-> [x \in 1..g.N |-> [e \in 1..6 |-> IF e <= g.D THEN 1 ELSE 0]]] IN
              Smooth(F[nm]) => LET c == Charge(g, F, iso).w  f == Real(g, F[nm]) IN \A k \in 2..g.N : c.r[k] = -90 * g.N * f.r[k] /\ c.i[k] = -90 * g.N * f.i[k]
(* another grid for the same model, where values are not integers *)
Other == IF g.D = 2 THEN RL({3, 5, 6, 7, 8, 9, 10}, 2) ELSE RL({1, 2, 3, 4, 5, 6}, 3)
Emit == (Gen /\ n = 3 + MaxSteps) => PrintT("@@T " \o ToJson([shape |-> g.sh, other |-> Other, names |-> names, terms |-> terms, eqs |-> eqs, k |-> g.k, steps |-> steps]))
S2 == {<<4, 4>>, <<4, 2>>, <<2, 4>>, <<4, 1>>, <<1, 4>>, <<4, 4, 1>>, <<4, 1, 4>>, <<4, 2, 2>>, <<2, 4, 2>>, <<2, 2, 4>>, <<1, 4, 4>>, <<1, 2, 4>>, <<4, 1, 2>>, <<2, 4, 1>>}
S3 == S2 \cup {<<4, 4, 2>>, <<4, 2, 4>>, <<2, 4, 4>>}
=============================================================================
