------------------------------ MODULE Equation ------------------------------
(* The text form of the equations of a model and what it means.              *)
(*                                                                           *)
(* A declaration d lists the names of a model by role. A term is a signed    *)
(* product of factors, possibly under a power of the Laplacian:              *)
(*   [s, l, f]  with s = 1 or -1, l = power of the Laplacian,                *)
(*              f = sequence of factors [n |-> name, p |-> twice the power]  *)
(* or a registered (user defined) term, under a power of the Laplacian:      *)
(*   f = <<[n |-> name, p |-> 2]>>  with a name of role imp, exp or mix.     *)
(* An equation is [lhs |-> name, terms |-> sequence of terms].               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Fold(_, _, _)
Fold(Op(_, _), e, s) == IF s = <<>> THEN e ELSE Fold(Op, Op(e, Head(s)), Tail(s))

(* ---------------- roles of names ---------------- *)
Variables(d) == Rng(d.fields) \cup Rng(d.funcs)     \* values that differ from node to node
Consts(d) == Rng(d.consts)
Registered(d) == {u.n : u \in Rng(d.uterms)}
KindOf(d, nm) == (CHOOSE u \in Rng(d.uterms) : u.n = nm).k
Known(d) == Variables(d) \cup Consts(d) \cup Registered(d)

VarFactors(d, t) == SelectSeq(t.f, LAMBDA x : x.n \in Variables(d))
ConstFactors(d, t) == SelectSeq(t.f, LAMBDA x : x.n \in Consts(d))
IsRegistered(d, t) == Len(t.f) = 1 /\ t.f[1].n \in Registered(d) /\ t.f[1].p = 2

(* ---------------- meaning ---------------- *)
(* A term is well formed when every name is known and registered terms stand alone.                *)
WellFormed(d, t) == IsRegistered(d, t) \/ \A i \in 1..Len(t.f) : t.f[i].n \in Variables(d) \cup Consts(d)
Accepted(d, eqs) == /\ \A i \in 1..Len(eqs) : eqs[i].lhs \in Rng(d.fields) /\ \A j \in 1..Len(eqs[i].terms) : WellFormed(d, eqs[i].terms[j])
                    /\ \A f \in Rng(d.fields) : Cardinality({i \in 1..Len(eqs) : eqs[i].lhs = f}) = 1
(* How a term enters the time stepping: the multiplier of the own field ("imp"), the explicit rate ("exp"), or one of each ("mix"). *)
LinearInOwn(d, lhs, t) == VarFactors(d, t) = <<[n |-> lhs, p |-> 2]>>
Class(d, lhs, t) == IF IsRegistered(d, t) THEN KindOf(d, t.f[1].n)
                    ELSE IF LinearInOwn(d, lhs, t) THEN "imp" ELSE "exp"
(* The parts of a term, as products that are evaluated node by node and then put under the Laplacian. *)
(* kind "own": multiplies the transform of the own field; kind "rate": is itself the rate.            *)
Parts(d, lhs, t) ==
    LET part(kind, f, u) == [kind |-> kind, s |-> t.s, l |-> t.l, f |-> f, u |-> u] IN
    IF IsRegistered(d, t)
    THEN LET nm == t.f[1].n  k == KindOf(d, nm) IN
         (IF k \in {"imp", "mix"} THEN <<part("own", <<>>, nm)>> ELSE <<>>) \o
         (IF k \in {"exp", "mix"} THEN <<part("rate", <<>>, nm)>> ELSE <<>>)
    ELSE IF LinearInOwn(d, lhs, t) THEN <<part("own", ConstFactors(d, t), "")>>
    ELSE <<part("rate", t.f, "")>>
Meaning(d, eq) == Fold(LAMBDA acc, t : acc \o Parts(d, eq.lhs, t), <<>>, eq.terms)
EquationOf(eqs, f) == eqs[CHOOSE i \in 1..Len(eqs) : eqs[i].lhs = f]
(* what the model means: for every field, in the order the fields were added, the parts of its own equation *)
ModelMeaning(d, eqs) == [i \in 1..Len(d.fields) |-> Meaning(d, EquationOf(eqs, d.fields[i]))]

(* The known deviation: a field whose name contains the name of another field or function is never treated *)
(* implicitly. The right-hand side as a whole stays the same, only the split differs.                      *)
Contains(a, b) == \E i \in 1..(Len(a) - Len(b) + 1) : SubSeq(a, i, i + Len(b) - 1) = b
Fragile(d, lhs) == \E v \in Variables(d) : v # lhs /\ Contains(lhs, v)
AltParts(d, lhs, t) == IF ~IsRegistered(d, t) /\ Fragile(d, lhs) THEN <<[kind |-> "rate", s |-> t.s, l |-> t.l, f |-> t.f, u |-> ""]>>
                       ELSE Parts(d, lhs, t)
AltMeaning(d, eqs) == [i \in 1..Len(d.fields) |-> LET eq == EquationOf(eqs, d.fields[i]) IN
                         Fold(LAMBDA acc, t : acc \o AltParts(d, eq.lhs, t), <<>>, eq.terms)]

(* ---------------- text ---------------- *)
(* A layout v of a term says where the Laplacian stands among the factors (q factors before it), how it *)
(* is joined to what follows, and whether it is written as one power or as a repeated operator.         *)
Tok(k, a, b) == [k |-> k, a |-> a, b |-> b]
LapToks(l, v) == IF l = 0 THEN <<>>
                 ELSE IF v.twice /\ l > 1 THEN <<Tok("lap", "", 1), Tok(v.join, "", 0), Tok("lap", "", l - 1)>>
                 ELSE <<Tok("lap", "", l)>>
RECURSIVE FactorToks(_)
FactorToks(f) == IF f = <<>> THEN <<>>
                 ELSE IF Len(f) = 1 THEN <<Tok("name", f[1].n, f[1].p)>>
                 ELSE <<Tok("name", f[1].n, f[1].p), Tok("mul", "", 0)>> \o FactorToks(Tail(f))
TermToks(t, v) ==
    LET q == IF v.q > Len(t.f) THEN 0 ELSE v.q
        front == FactorToks(SubSeq(t.f, 1, q))
        back == FactorToks(SubSeq(t.f, q + 1, Len(t.f)))
    IN  IF t.l = 0 THEN FactorToks(t.f)
        ELSE (IF front = <<>> THEN <<>> ELSE front \o <<Tok("mul", "", 0)>>) \o LapToks(t.l, v)
             \o (IF back = <<>> THEN <<>> ELSE <<Tok(v.join, "", 0)>> \o back)
SignTok(s) == Tok("sign", "", s)
EqToks(eq, vs) == Fold(LAMBDA acc, i : acc \o (IF i = 1 /\ eq.terms[1].s = 1 /\ ~vs[1].plus THEN <<>> ELSE <<SignTok(eq.terms[i].s)>>)
                                           \o TermToks(eq.terms[i], vs[i]), <<>>, [i \in 1..Len(eq.terms) |-> i])
Power(p) == IF p = 101 THEN "1.25" ELSE IF p = 103 THEN "0.75" ELSE IF p = 105 THEN "2.125" ELSE IF p % 2 = 0 THEN ToString(p \div 2) ELSE ToString(p \div 2) \o ".5"
Spell(tok, sp) ==
    CASE tok.k = "sign" -> sp \o (IF tok.b = 1 THEN "+" ELSE "-") \o sp
      [] tok.k = "mul" -> sp \o "*" \o sp
      [] tok.k = "adj" -> " "
      [] tok.k = "lap" -> IF tok.b = 1 THEN "LAP" ELSE "LAP^" \o ToString(tok.b)
      [] tok.k = "name" -> IF tok.b = 2 THEN tok.a ELSE tok.a \o sp \o "^" \o Power(tok.b)
Text(eq, vs, sp) == "d" \o eq.lhs \o "/dt" \o sp \o "=" \o sp
                    \o Fold(LAMBDA acc, tok : acc \o Spell(tok, sp), "", EqToks(eq, vs))

(* ---------------- reading the tokens back ---------------- *)
NewTerm(s) == [s |-> s, l |-> 0, f |-> <<>>]
Read(acc, tok) ==
    CASE tok.k = "sign" -> Append(acc, NewTerm(tok.b))
      [] tok.k = "lap" -> [(IF acc = <<>> THEN <<NewTerm(1)>> ELSE acc) EXCEPT ![Len(IF acc = <<>> THEN <<NewTerm(1)>> ELSE acc)].l = @ + tok.b]
      [] tok.k = "name" -> [(IF acc = <<>> THEN <<NewTerm(1)>> ELSE acc) EXCEPT ![Len(IF acc = <<>> THEN <<NewTerm(1)>> ELSE acc)].f = Append(@, [n |-> tok.a, p |-> tok.b])]
      [] OTHER -> acc
Parse(toks) == Fold(Read, <<>>, toks)
=============================================================================
