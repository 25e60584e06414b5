---------------------------- MODULE Registration -----------------------------
(* Terms offered as implicit: polynomials in what the term reads. A term may  *)
(* be treated implicitly exactly when its value cannot change with a field.   *)
(* A monomial is [c |-> coefficient, v |-> reads, w |-> weight]; the weights  *)
(* are functions of frequency, time or node ("last" is 1 at the last node and *)
(* 0 elsewhere, "neg" 1 where the first frequency is negative, "low" 1 where  *)
(* it is between 0 and 0.3; domains have such nodes), the reads are of a      *)
(* field ("A", "B"),                                                          *)
(* of a field at the first node ("A0"), of a registered function ("F"), of a  *)
(* derived field ("D") or of a constant ("k").                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Gen, Num
Reads == {"A", "B", "A0", "F", "D", "k"}
Varying == Reads \ {"k"}
Weights == {"one", "freq", "diff", "time", "last", "neg", "low"}
Products == {<<>>} \cup {<<a>> : a \in Reads} \cup {<<a, b>> : a \in {"A", "B", "k"}, b \in {"A", "B", "k"}}
Monomials == [c : {1, -1, 2}, v : Products, w : Weights]
Bag(v, x) == Cardinality({i \in 1..Len(v) : v[i] = x})
Same(m1, m2) == m1.w = m2.w /\ \A x \in Reads : Bag(m1.v, x) = Bag(m2.v, x)
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE Head(s).c + SumC(Tail(s))
Coef(p, m) == SumC(SelectSeq(p, LAMBDA x : Same(x, m)))
Varies(p) == \E i \in 1..Len(p) : Coef(p, p[i]) # 0 /\ \E j \in 1..Len(p[i].v) : p[i].v[j] \in Varying
Verdict(p) == IF Varies(p) THEN "refused" ELSE "accepted"

VARIABLES p, n
Init == p = <<>> /\ n = 0
Add == /\ Len(p) < 2
       /\ \E m \in (IF Gen THEN RandomSubset(1, {x \in Monomials : n >= 0}) ELSE Monomials) : p' = Append(p, m)
       /\ n' = n + 1
(* every third random pair cancels or is a multiple of its first monomial *)
Echo == /\ Len(p) = 1 /\ Gen
        /\ \E c \in RandomSubset(1, {x \in {-1, -2, 1} : n >= 0}) : p' = Append(p, [p[1] EXCEPT !.c = c, !.v = [i \in 1..Len(p[1].v) |-> p[1].v[Len(p[1].v) + 1 - i]]])
        /\ n' = n + 1
Next == Add \/ Echo
Spec == Init /\ [][Next]_<<p, n>>
View == p
(* adding a term and its opposite, or one that reads no field, never changes the verdict *)
Cancels == \A i \in 1..Len(p) : Verdict(p \o <<p[i], [p[i] EXCEPT !.c = -@]>>) = Verdict(p)
Harmless == Verdict(Append(p, [c |-> 2, v |-> <<"k">>, w |-> "freq"])) = Verdict(p)
OrderFree == Len(p) = 2 => Verdict(<<p[2], p[1]>>) = Verdict(p)
Emit == Gen /\ Len(p) > 0 => PrintT("@@T " \o ToJson([p |-> p, verdict |-> Verdict(p)]))
=============================================================================
