----------------------------- MODULE EquationMC -----------------------------
(* Random models in text form, built name by name and term by term, with the *)
(* properties every model must have; finished models are emitted with their  *)
(* meaning.                                                                  *)
EXTENDS Equation, Conservation, Json, Randomization
CONSTANTS Gen, MaxTerms, Small, Bad,     \* Bad: also build models with unknown names
          Huge                            \* also Laplacians of order 10
VARIABLES d, eqs, texts, free, ph, n, bad, flaw
vars == <<d, eqs, texts, free, ph, n, bad, flaw>>
Pools == << <<"c", "cc", "conc", "conc2", "con", "c2", "c22", "oconc", "Conc", "conc_2">>,
            <<"eta", "eta1", "eta12", "beta", "a", "et", "ta", "t", "dt", "Eta">>,
            <<"x", "xx", "max", "x1", "ax", "x_1", "m", "ma", "X", "x11">>,
            <<"phi", "phi0", "phi00", "ph", "hi", "i", "p", "PHI", "alphi", "phi_">>,
            <<"temperature", "rate", "temp", "rat", "era", "ture", "mobility", "mob", "kappa", "pa">>,
            <<"d", "dd", "ddt", "ded", "e", "E", "LA", "AP", "PAL", "dLA">> >>
PoolsMC == {Pools[1]}
Plain == [q |-> 0, join |-> "mul", twice |-> FALSE, plus |-> FALSE]

Pick(S) == IF Gen THEN RandomSubset(1, {x \in S : n >= 0}) ELSE S
Empty == [fields |-> <<>>, consts |-> <<>>, funcs |-> <<>>, uterms |-> <<>>]
Init == /\ d = Empty /\ eqs = <<>> /\ texts = <<>> /\ ph = "names" /\ n = 0 /\ bad = FALSE /\ flaw = "none"
        /\ free \in (IF Gen THEN {Rng(Pools[i]) : i \in 1..Len(Pools)} ELSE {IF Small THEN {"c", "cc"} ELSE {"c", "cc", "con"}})

Take(role, nm) == IF role \in {"imp", "exp", "mix"} THEN [d EXCEPT !.uterms = Append(@, [n |-> nm, k |-> role])]
                  ELSE [d EXCEPT ![role] = Append(@, nm)]
Quota == IF Gen THEN [fields |-> 3, consts |-> 3, funcs |-> 2, uterms |-> 2] ELSE [fields |-> 2, consts |-> 1, funcs |-> 0, uterms |-> 1]
RoleOk(role) == IF role \in {"imp", "exp", "mix"} THEN Len(d.uterms) < Quota.uterms ELSE Len(d[role]) < Quota[role]
Declare == /\ ph = "names" /\ free # {}
           /\ \E role \in Pick({"fields", "consts", "funcs", "imp", "exp", "mix"}), nm \in Pick(free) :
                RoleOk(role) /\ d' = Take(role, nm) /\ free' = free \ {nm}
           /\ n' = n + 1 /\ UNCHANGED <<eqs, texts, ph, bad>>
Begin == /\ ph = "names" /\ Len(d.fields) > 0 /\ (Gen => n >= 3 + Len(d.fields)) /\ ph' = "terms" /\ n' = n + 1
         /\ UNCHANGED <<d, eqs, texts, free, bad>>

Todo == Rng(d.fields) \ {eqs[i].lhs : i \in 1..Len(eqs)}
Open == /\ ph = "terms" /\ Todo # {} /\ (IF eqs = <<>> THEN TRUE ELSE Len(eqs[Len(eqs)].terms) > 0)
        /\ \E f \in Pick(Todo) : eqs' = Append(eqs, [lhs |-> f, terms |-> <<>>])
        /\ texts' = Append(texts, <<>>) /\ n' = n + 1 /\ UNCHANGED <<d, free, ph, bad>>
CanAdd == ph = "terms" /\ Len(eqs) > 0 /\ Len(eqs[Len(eqs)].terms) < MaxTerms
(* powers are counted in halves; 101, 103 and 105 stand for 1.25, 0.75 and 2.125 *)
Powers == IF Gen THEN {1, 2, 3, 4, 5, 6} \cup (IF n % 4 = 0 THEN {20, 101, 103, 105} ELSE {}) ELSE {2, 4}
Laps == IF ~Gen THEN {0, 1} ELSE IF Huge /\ n = 15 THEN {0, 10, 11} ELSE IF n % 5 = 0 THEN {-1, 1, 4, 5} ELSE -3..3
Max0(x) == IF x < 0 THEN 0 ELSE x
Push(t, v) == /\ eqs' = [eqs EXCEPT ![Len(eqs)].terms = Append(@, t)]
              /\ texts' = [texts EXCEPT ![Len(eqs)] = Append(@, v)]
              /\ n' = n + 1 /\ UNCHANGED <<d, free, ph>>
Layouts == IF Gen THEN [q : {0, 1, 2}, join : {"mul", "adj"}, twice : {TRUE, FALSE}, plus : {TRUE, FALSE}]
           ELSE {Plain, [q |-> 1, join |-> "adj", twice |-> FALSE, plus |-> TRUE]}
(* constants may stand before the Laplacian, everything else stands after it *)
LayoutOk(t, v) == t.l = 0 \/ \A i \in 1..Len(t.f) : i <= v.q => t.f[i].n \in Consts(d)
Pow(nm, p) == IF nm \in Consts(d) /\ p % 2 = 1 THEN [n |-> nm, p |-> 2] ELSE [n |-> nm, p |-> p]
AddTerm == /\ CanAdd
           /\ \E s \in Pick({1, -1}), l0 \in Pick(Laps), k \in Pick(0..(IF Gen THEN 3 ELSE 1)),
                 a \in Pick(Variables(d)), b \in Pick(Variables(d) \cup Consts(d)), c \in Pick(IF Gen THEN Variables(d) \cup Consts(d) ELSE {d.fields[1]}),
                 p1 \in Pick(Powers), p2 \in Pick(IF Gen THEN Powers ELSE {2}), p3 \in Pick(IF Gen THEN Powers ELSE {2}), r \in Pick(IF Gen THEN 0..3 ELSE {0}) :
                LET f0 == IF k = 0 THEN <<Pow(a, p1)>>
                          ELSE IF k = 1 THEN <<Pow(b, p2), Pow(a, p1)>>
                          ELSE IF k = 2 THEN <<Pow(b, p2), Pow(c, p3), Pow(a, p1)>>
                          ELSE <<Pow(b, p2)>>
                    f1 == IF r = 1 THEN [i \in 1..Len(f0) |-> f0[Len(f0) + 1 - i]] ELSE f0
                    t == [s |-> s, l |-> Max0(l0), f |-> f1]
                IN \E v \in Pick({w \in Layouts : LayoutOk(t, w)}) : Push(t, v) /\ UNCHANGED bad
AddOwn == /\ CanAdd      \* the implicit form: constants and Laplacians on the own field
          /\ \E s \in Pick({1, -1}), l \in Pick(IF Gen THEN {0, 1, 2, 3} ELSE {0, 1}), b \in Pick({""} \cup Consts(d)), c \in Pick(IF Gen THEN {""} \cup Consts(d) ELSE {""}), p \in Pick(Powers), r \in Pick(IF Gen THEN 0..2 ELSE {0, 2}) :
               LET own == <<[n |-> eqs[Len(eqs)].lhs, p |-> 2]>>
                   cs == (IF b = "" THEN <<>> ELSE <<Pow(b, p)>>) \o (IF c = "" THEN <<>> ELSE <<Pow(c, 2)>>)
                   t == [s |-> s, l |-> l, f |-> IF r = 0 THEN own \o cs ELSE IF r = 1 /\ Len(cs) = 2 THEN <<cs[1]>> \o own \o <<cs[2]>> ELSE cs \o own]
               IN \E v \in Pick({w \in Layouts : LayoutOk(t, w)}) : Push(t, v) /\ UNCHANGED bad
AddRegistered == /\ CanAdd /\ Len(d.uterms) > 0
                 /\ \E u \in Pick(Rng(d.uterms)), s \in Pick({1, -1}), l0 \in Pick(Laps), v \in Pick({w \in Layouts : w.q = 0}) :
                      Push([s |-> s, l |-> Max0(l0), f |-> <<[n |-> u.n, p |-> 2]>>], v) /\ UNCHANGED bad
(* a name nobody declared, or a registered term used as a factor *)
Unknown == free \cup {"1", "2.5", "lap"}
AddUnknown == /\ Bad /\ CanAdd /\ ~bad
              /\ \E nm \in Pick(Unknown), o \in Pick(Variables(d) \cup Consts(d)), s \in Pick({1, -1}), l \in Pick({0, 1}), k \in Pick(0..3) :
                   /\ Push([s |-> s, l |-> l, f |-> CASE k = 0 -> <<[n |-> nm, p |-> 2]>>
                                                       [] k = 1 -> <<[n |-> nm, p |-> 2], [n |-> o, p |-> 2]>>
                                                       [] k = 2 -> <<[n |-> o, p |-> 4], [n |-> nm, p |-> 2]>>
                                                       [] OTHER -> <<[n |-> nm, p |-> 4]>>], Plain)
                   /\ bad' = TRUE
(* models that are wrong as a whole: an equation too many for a field, a field without an equation, or a sign without a term *)
Flaws == {"none", "twice", "missing", "sign"}
AddFlaw == /\ Bad /\ ph = "terms" /\ Todo = {} /\ ~bad /\ Len(eqs[Len(eqs)].terms) > 0
           /\ \E fl \in Pick({"twice", "missing", "sign"}) :
                /\ fl = "missing" => Len(d.fields) > 1
                /\ flaw' = fl /\ bad' = TRUE
                /\ IF fl = "twice" THEN eqs' = Append(eqs, eqs[1]) /\ texts' = Append(texts, texts[1])
                   ELSE IF fl = "missing" THEN eqs' = SubSeq(eqs, 1, Len(eqs) - 1) /\ texts' = SubSeq(texts, 1, Len(eqs) - 1)
                   ELSE UNCHANGED <<eqs, texts>>
           /\ n' = n + 1 /\ ph' = "done" /\ UNCHANGED <<d, free>>
Finish == /\ ph = "terms" /\ Todo = {} /\ Len(eqs[Len(eqs)].terms) > 0 /\ (Bad => bad)
          /\ ph' = "done" /\ n' = n + 1 /\ UNCHANGED <<d, eqs, texts, free, bad>>
Keep == UNCHANGED flaw
Next == \/ (Declare /\ Keep) \/ (Begin /\ Keep) \/ (Open /\ Keep) \/ (AddTerm /\ Keep) \/ (AddOwn /\ Keep)
        \/ (AddRegistered /\ Keep) \/ (AddUnknown /\ Keep) \/ (Finish /\ Keep) \/ AddFlaw
Spec == Init /\ [][Next]_vars

View == <<d, eqs, texts, ph, bad, flaw>>

(* ---------------- properties ---------------- *)
Nonempty == \A i \in 1..Len(eqs) : i < Len(eqs) \/ Len(eqs[i].terms) > 0
(* the text is unambiguous: its tokens read back as the term they were written from *)
Readable == \A i \in 1..Len(eqs) : Parse(EqToks(eqs[i], texts[i])) = eqs[i].terms
(* every term gives the whole of its contribution, split in at most one part per kind *)
SplitWhole == \A i \in 1..Len(eqs) : \A j \in 1..Len(eqs[i].terms) :
    LET t == eqs[i].terms[j]  ps == Parts(d, eqs[i].lhs, t) IN
    WellFormed(d, t) => /\ Len(ps) = (IF Class(d, eqs[i].lhs, t) = "mix" THEN 2 ELSE 1)
                        /\ \A k \in 1..Len(ps) : (ps[k].kind = "own") = (Class(d, eqs[i].lhs, t) = "imp" \/ (Class(d, eqs[i].lhs, t) = "mix" /\ k = 1))
(* what is treated implicitly never contains a quantity that varies from node to node *)
ImplicitIsConstant == \A i \in 1..Len(eqs) : LET m == Meaning(d, eqs[i]) IN
    \A k \in 1..Len(m) : m[k].kind = "own" => \A x \in 1..Len(m[k].f) : m[k].f[x].n \in Consts(d)
(* the meaning does not depend on the order of factors *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == \A i \in 1..Len(eqs) : \A j \in 1..Len(eqs[i].terms) :
    LET t == eqs[i].terms[j] IN Class(d, eqs[i].lhs, t) = Class(d, eqs[i].lhs, [t EXCEPT !.f = Rev(@)])
Judged == Bad => (ph = "done" => ~Accepted(d, eqs) \/ flaw = "sign")
Sound == (ph = "done" /\ ~bad) => Accepted(d, eqs)

(* the alternative split has the same parts up to the treatment of the own field *)
Whole(m) == {IF m[k].kind = "own" /\ m[k].u = "" THEN [s |-> m[k].s, l |-> m[k].l] ELSE [s |-> m[k].s, l |-> m[k].l] : k \in 1..Len(m)}
SameWhole == (ph = "done" /\ ~bad) => \A i \in 1..Len(d.fields) :
    Len(AltMeaning(d, eqs)[i]) = Len(ModelMeaning(d, eqs)[i]) /\ Whole(AltMeaning(d, eqs)[i]) = Whole(ModelMeaning(d, eqs)[i])
Classes == [i \in 1..Len(d.fields) |-> LET eq == EquationOf(eqs, d.fields[i]) IN [j \in 1..Len(eq.terms) |-> Class(d, eq.lhs, eq.terms[j])]]
Seps == {"", " ", "  ", "\t"}
Emit == (Gen /\ ph = "done") =>
    \E sp \in RandomSubset(1, {x \in Seps : n >= 0}) :
       PrintT("@@P " \o ToJson([d |-> d, text |-> [i \in 1..Len(eqs) |-> Text(eqs[i], texts[i], sp) \o (IF flaw = "sign" /\ i = Len(eqs) THEN (IF n % 2 = 0 THEN "+" ELSE "-" \o sp \o "-" \o d.fields[1]) ELSE "")],
                                flaw |-> flaw,
                                lhs |-> [i \in 1..Len(eqs) |-> eqs[i].lhs],
                                meaning |-> IF bad THEN <<>> ELSE ModelMeaning(d, eqs), bad |-> bad,
                                alt |-> IF bad \/ AltMeaning(d, eqs) = ModelMeaning(d, eqs) THEN <<>> ELSE AltMeaning(d, eqs),
                                conserved |-> IF bad THEN <<>> ELSE [i \in 1..Len(d.fields) |-> Conserved(ModelMeaning(d, eqs)[i])],
                                class |-> IF bad THEN <<>> ELSE Classes]))
=============================================================================
