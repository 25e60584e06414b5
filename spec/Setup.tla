-------------------------------- MODULE Setup ---------------------------------
(* A model while it is put together. Everything that was added can be found   *)
(* again under its name, in the order in which it was added, a name that was  *)
(* taken keeps its first meaning, and a model whose parts do not fit together *)
(* is refused before anything is computed with it.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Gen, MaxActs
FieldNames == {"a", "b", "ab"}
ScalarNames == {"k", "kk"}
FuncNames == {"F", "G"}
DerNames == {"D", "E"}
Kind == [T |-> "implicit", P |-> "implicit", U |-> "explicit", V |-> "mixed", W |-> "explicit"]
TermNames == DOMAIN Kind
Names == FieldNames \cup ScalarNames \cup FuncNames \cup DerNames \cup TermNames
Factors == FieldNames \cup ScalarNames \cup FuncNames \cup DerNames
Size == 6
Domains == {<<2, 3>>, <<3, 2>>, <<6, 1>>, <<1, 2, 3>>, <<2, 2>>, <<6, 6>>, <<3, 1, 1>>}
Flaws == {"", "", "", "", "noeq", "twoeq", "trail", "double", "empty", "short", "leibniz"}
Products == {<<x>> : x \in Factors \cup TermNames} \cup {<<x, y>> : x \in Factors, y \in Factors}

VARIABLES fields,    \* <<[n, size, v]>> in the order in which they were added
          scalars,   \* name -> value of the names that were given one
          ders,      \* <<[n, v]>> functions and derived fields in the order in which they were added
          terms,     \* names of the registered terms
          eqs,       \* <<[lhs, rhs, flaw]>>
          done, h
vars == <<fields, scalars, ders, terms, eqs, done, h>>

Range(s) == {s[i] : i \in 1..Len(s)}
FieldSet == {f.n : f \in Range(fields)}
DerSet == {d.n : d \in Range(ders)}
Known == FieldSet \cup DOMAIN scalars \cup DerSet
Prod(d) == IF Len(d) = 2 THEN d[1] * d[2] ELSE d[1] * d[2] * d[3]

(* ------------------------------------------------------------ what is asked *)
EqOf(f) == LET S == {i \in 1..Len(eqs) : eqs[i].flaw = "" /\ eqs[i].lhs = f} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Query == [all |-> [i \in 1..Len(fields) |-> fields[i].n] \o [i \in 1..Len(ders) |-> ders[i].n],
          vars |-> Known, terms |-> [t \in terms |-> Kind[t]],
          nodes |-> IF fields = <<>> THEN 0 ELSE fields[1].size,
          eqno |-> [f \in FieldNames |-> EqOf(f)],
          fvals |-> [f \in FieldSet |-> (CHOOSE g \in Range(fields) : g.n = f).v],
          svals |-> scalars]

(* --------------------------------------------------------- what is accepted *)
WellFormed(e) == e.flaw = "" /\ \A i \in 1..Len(e.rhs) : \A j \in 1..Len(e.rhs[i].p) : IF Len(e.rhs[i].p) = 1 THEN e.rhs[i].p[j] \in Known \cup terms ELSE e.rhs[i].p[j] \in Known
Fits(d) == \A i \in 1..Len(fields) : fields[i].size = Prod(d)
EveryFieldEvolves == \A f \in FieldSet : EqOf(f) # 0
OneEach == \A i, j \in 1..Len(eqs) : (eqs[i].lhs = eqs[j].lhs) => (i = j)
Verdict(d) == IF /\ Fits(d) /\ EveryFieldEvolves /\ OneEach /\ (\A i \in 1..Len(eqs) : WellFormed(eqs[i])) THEN "accepted" ELSE "refused"
(* an equation for a name that no field has is a finding of the property on the meaning of equations *)
Judged == \A i \in 1..Len(eqs) : eqs[i].flaw # "" \/ eqs[i].lhs \in FieldSet

(* own linear terms and the terms registered as such are the implicit ones *)
Own(e, p) == Cardinality({j \in 1..Len(p) : p[j] = e.lhs}) = 1 /\ \A j \in 1..Len(p) : p[j] = e.lhs \/ p[j] \in DOMAIN scalars
Implicit(e, t) == IF t.p[1] \in terms THEN Kind[t.p[1]] \in {"implicit", "mixed"} ELSE Own(e, t.p)
Explicit(e, t) == IF t.p[1] \in terms THEN Kind[t.p[1]] \in {"explicit", "mixed"} ELSE ~Own(e, t.p)
Count(e, Which(_, _)) == Cardinality({i \in 1..Len(e.rhs) : Which(e, e.rhs[i])})
Summary == [i \in 1..Len(eqs) |-> [ne |-> Count(eqs[i], Explicit), ni |-> Count(eqs[i], Implicit)]]

(* ---------------------------------------------------------------- the steps *)
Pick(S) == IF Gen THEN RandomSubset(1, {x \in S : Len(h) >= 0}) ELSE S
Log(a) == h' = Append(h, a @@ [q |-> Query'])
Free(n) == n \notin Known
Chance(n) == RandomElement({x \in 1..n : Len(h) >= 0}) = 1
Open == {f \in FieldSet : EqOf(f) = 0}
Late == Gen /\ Len(h) > 6 /\ Open # {}      \* random histories finish what they began
Go == ~done /\ Len(h) < MaxActs
Early == Go /\ ~Late
(* data of a length that differs from the number of nodes is refused and leaves the model as it is *)
AddField == Early /\ \E n \in Pick(FieldNames), size \in Pick(IF Gen THEN {Size} ELSE {Size, 4}), off \in Pick({-1, 0, 1, -100, -100}) :
   /\ Free(n)
   /\ LET v == IF off = -100 THEN 0 ELSE Len(h) + 2 IN
      /\ IF off \in {-1, 1} THEN UNCHANGED fields ELSE fields' = Append(fields, [n |-> n, size |-> size, v |-> v])
      /\ UNCHANGED <<scalars, ders, terms, eqs, done>>
      /\ Log([act |-> "field", n |-> n, size |-> size, off |-> off, v |-> v, ok |-> off \notin {-1, 1}])
(* a field of another size makes the model unusable on every domain *)
AddOdd == Early /\ (Gen => Chance(6)) /\ Len(fields) > 0 /\ Len(h) > 5 /\ \E n \in Pick(FieldNames) :
   /\ Free(n)
   /\ fields' = Append(fields, [n |-> n, size |-> 4, v |-> 0])
   /\ UNCHANGED <<scalars, ders, terms, eqs, done>>
   /\ Log([act |-> "field", n |-> n, size |-> 4, off |-> -100, v |-> 0, ok |-> TRUE])
AddScalar == Early /\ \E n \in Pick(ScalarNames), v \in Pick({1, 2, -3}) :
   /\ scalars' = (n :> v) @@ scalars
   /\ UNCHANGED <<fields, ders, terms, eqs, done>>
   /\ Log([act |-> "scalar", n |-> n, v |-> v, ok |-> TRUE])
AddFunc == Early /\ fields # <<>> /\ \E n \in Pick(FuncNames) :
   /\ Free(n)
   /\ ders' = Append(ders, [n |-> n, v |-> Len(h) + 1])
   /\ UNCHANGED <<fields, scalars, terms, eqs, done>>
   /\ Log([act |-> "func", n |-> n, v |-> Len(h) + 1, ok |-> TRUE])
AddDer == Early /\ fields # <<>> /\ \E n \in Pick(DerNames) :
   /\ Free(n)
   /\ ders' = Append(ders, [n |-> n, v |-> Len(h) + 1])
   /\ UNCHANGED <<fields, scalars, terms, eqs, done>>
   /\ Log([act |-> "der", n |-> n, v |-> Len(h) + 1, ok |-> TRUE])
RECURSIVE Merge(_, _, _)
Merge(ds, ns, v) == IF ns = <<>> THEN ds
                    ELSE Merge(IF Head(ns) \in {d.n : d \in Range(ds)} \cup FieldSet THEN ds ELSE Append(ds, [n |-> Head(ns), v |-> v]), Tail(ns), v)
AddTerm == Go /\ fields # <<>> /\ \E t \in Pick(TermNames), ns \in Pick({<<>>, <<"D">>, <<"E">>, <<"D", "E">>, <<"E", "D">>, <<"a", "E">>}) :
   /\ (\A i \in 1..Len(ns) : (ns[i] = "a") => ("a" \in FieldSet))
   /\ terms' = terms \cup {t}
   /\ ders' = Merge(ders, ns, Len(h) + 1)
   /\ UNCHANGED <<fields, scalars, eqs, done>>
   /\ Log([act |-> "term", n |-> t, kind |-> Kind[t], ders |-> ns, v |-> Len(h) + 1, ok |-> TRUE])
(* mostly equations of what is there already, sometimes of what is still to come or of what never comes *)
Likely == {p \in Products : \A j \in 1..Len(p) : p[j] \in Known \cup (IF Len(p) = 1 THEN terms ELSE {})}
Rhs(k) == IF ~Gen THEN {<<[s |-> "+", p |-> <<x>>]>> : x \in {"a", "k", "F", "U"}}
          ELSE LET one(i) == {[s |-> s, p |-> p] : s \in RandomSubset(1, {x \in {"+", "-"} : Len(h) >= 0}),
                              p \in RandomSubset(1, {x \in (IF Likely = {} \/ Chance(40) THEN Products ELSE Likely) : Len(h) >= 0})}
               IN IF k = 1 THEN {<<x>> : x \in one(1)} ELSE IF k = 2 THEN {<<x, y>> : x \in one(1), y \in one(2)} ELSE {<<x, y, z>> : x \in one(1), y \in one(2), z \in one(3)}
Lhs == IF ~Gen THEN FieldNames ELSE IF Open = {} THEN (IF Chance(4) THEN FieldNames ELSE {}) ELSE IF Chance(20) THEN FieldNames ELSE Open
AddEq == Go /\ \E f \in Pick(Lhs), k \in Pick(1..3), flaw \in Pick(IF Gen /\ ~Chance(12) THEN {""} ELSE Flaws) : \E rhs \in Rhs(k) :
   /\ ~(\E i \in 1..Len(eqs) : eqs[i].flaw # "")
   /\ eqs' = Append(eqs, [lhs |-> f, rhs |-> rhs, flaw |-> flaw])
   /\ UNCHANGED <<fields, scalars, ders, terms, done>>
   /\ Log([act |-> "eq", lhs |-> f, rhs |-> rhs, flaw |-> flaw, ok |-> TRUE])
MakeSolver == ~done /\ fields # <<>> /\ Judged /\ (Gen => (Len(h) > 5 /\ (Len(h) = MaxActs \/ (EveryFieldEvolves /\ Chance(2))))) /\ \E d \in Pick(IF Gen /\ ~Chance(6) THEN {x \in Domains : Prod(x) = Size} ELSE Domains) :
   /\ done' = TRUE
   /\ UNCHANGED <<fields, scalars, ders, terms, eqs>>
   /\ Log([act |-> "solver", domain |-> d, ok |-> Verdict(d) = "accepted", summary |-> Summary, dvals |-> [i \in 1..Len(ders) |-> ders[i].v]])
Init == fields = <<>> /\ scalars = [x \in {} |-> 0] /\ ders = <<>> /\ terms = {} /\ eqs = <<>> /\ done = FALSE /\ h = <<>>
Next == AddField \/ AddOdd \/ AddScalar \/ AddFunc \/ AddDer \/ AddTerm \/ AddEq \/ MakeSolver
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- properties *)
(* every name means one thing *)
Distinct == \A i, j \in 1..Len(Query.all) : (Query.all[i] = Query.all[j]) => (i = j)
Apart == (FieldSet \cap DerSet = {}) /\ (FieldSet \cap DOMAIN scalars = {}) /\ (DerSet \cap DOMAIN scalars = {})
(* what was added is never lost, renamed, reordered or given another meaning *)
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Keeps == [][IsPrefixOf(fields, fields') /\ IsPrefixOf(ders, ders') /\ IsPrefixOf(eqs, eqs') /\ terms \subseteq terms' /\ DOMAIN scalars \subseteq DOMAIN scalars']_vars
(* an accepted model has exactly one equation per field and fits its domain *)
Sound == \A d \in Domains : Verdict(d) = "accepted" => (Len(eqs) = Cardinality({eqs[i].lhs : i \in 1..Len(eqs)}) /\ FieldSet \subseteq {eqs[i].lhs : i \in 1..Len(eqs)} /\ Cardinality({f.size : f \in Range(fields)}) <= 1)
(* nothing that is added repairs a flaw, and a domain with another number of nodes is refused *)
FlawStays == \A d \in Domains : (\E i \in 1..Len(eqs) : eqs[i].flaw # "") => (Verdict(d) = "refused")
Split == \A i \in 1..Len(eqs) : Summary[i].ne + Summary[i].ni >= Len(eqs[i].rhs)
View == <<fields, scalars, ders, terms, eqs, done, Len(h)>>
Emit == Gen /\ done => PrintT("@@S " \o ToJson(h))
=============================================================================
