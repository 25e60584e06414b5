------------------------------- MODULE PlotMC -------------------------------
(* A table, written in some order of its rows, and the pictures asked for.    *)
EXTENDS Plot, Json, Randomization
CONSTANTS Gen, MaxOps
VARIABLES tab, ops, n
vars == <<tab, ops, n>>
R(S) == RandomElement({x \in S : n >= 0})
DimsMC == {<<2, 2, 1>>, <<1, 3, 1>>, <<1, 2, 2>>}
DimsGen == {<<4, 4, 1>>, <<3, 5, 1>>, <<5, 2, 1>>, <<1, 6, 1>>, <<6, 1, 1>>, <<2, 2, 1>>, <<7, 4, 1>>, <<8, 9, 1>>, <<3, 3, 3>>, <<2, 3, 4>>, <<4, 1, 3>>, <<4, 3, 2>>, <<11, 12, 1>>, <<45, 3, 1>>, <<2, 52, 1>>, <<57, 1, 1>>}
Names == {"conc", "conc2", "con", "eta", "Eta", "field1", "field_2", "T"}
Many == <<"f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12">>
Values == IF Gen THEN -9..9 ELSE 0..2
Perm(S) == LET base == SetToSeq(S) IN IF Gen THEN LET k == R({"orderly", "columns", "any"}) IN
      IF k = "orderly" THEN SetToSortSeq(S, Before)
      ELSE IF k = "columns" THEN SetToSortSeq(S, LAMBDA a, b : Before(<<a[3], a[2], a[1]>>, <<b[3], b[2], b[1]>>))
      ELSE LET w == TLCEval([p \in S |-> RandomElement({x \in 1..100000 : n >= 0})]) IN SetToSortSeq(S, LAMBDA a, b : w[a] < w[b] \/ (w[a] = w[b] /\ Before(a, b)))
    ELSE base
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == tab = <<>> /\ ops = <<>> /\ n = 0
Table(d, nm, p, v) == [dims |-> d, names |-> nm, rows |-> [i \in DOMAIN p |-> [p |-> p[i], v |-> v[i]]]]
Write == /\ n = 0 /\ n' = 1 /\ ops' = <<>>
         /\ IF Gen THEN \E d \in {R(DimsGen)} : \E k \in {R(1..4)} :
                        \E nm \in {IF k > 3 THEN SubSeq(Many, 1, R({8, 9, 12})) ELSE R({s \in [1..k -> R({Names, {"con", "conc", "conc2", "2conc"}})] : \A i, j \in 1..k : i # j => s[i] # s[j]})} : \E p \in {Perm(Positions(d))} :
                        \E v \in {TLCEval([i \in DOMAIN p |-> TLCEval([f \in DOMAIN nm |-> RandomElement({x \in Values : i >= 0 /\ f >= 0})])])} : tab' = Table(d, nm, p, v)
            ELSE \E d \in DimsMC : \E p \in Perms(Positions(d)) : \E v \in [1..Len(p) -> Values] : tab' = Table(d, <<"conc">>, p, [i \in DOMAIN p |-> <<v[i]>>])
Questions == {<<x, y, z>> : x \in -1..tab.dims[1] - 1, y \in -1..tab.dims[2] - 1, z \in -1..tab.dims[3] - 1}
Do(o) == n > 0 /\ n <= MaxOps /\ n' = n + 1 /\ ops' = Append(ops, o) /\ UNCHANGED tab
Lists == {<<>>} \cup {<<tab.names[i]>> : i \in DOMAIN tab.names} \cup {<<tab.names[i], tab.names[j]>> : i, j \in DOMAIN tab.names}
Ask == n > 0 /\ \E q \in {R({q \in Questions : Answerable(q)})} : \E l \in {IF R(0..2) = 0 THEN <<>> ELSE R({l \in Lists : Len(l) < 2 \/ l[1] # l[2]})} :
    LET s == Selected(tab, l) IN Do([op |-> "line", q |-> q, list |-> l, names |-> [i \in DOMAIN s |-> tab.names[s[i]]], want |-> [i \in DOMAIN s |-> Line(tab, q, s[i])], orderly |-> Along(tab, q)])
Refuse == n > 0 /\ \E q \in {R({q \in Questions : ~Answerable(q)})} : Do([op |-> "refuse", q |-> q, list |-> <<>>])
Draw == n > 0 /\ Flat(tab) /\ \E c \in {R({""} \cup Range(tab.names))} : Do([op |-> "plane", name |-> c, want |-> Picture(tab, Chosen(tab, c))])
Next == Write \/ (Gen /\ (Ask \/ Refuse \/ Draw))
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
Sound == n > 0 => IsTable(tab)
(* every row is on exactly one line along every axis *)
EveryRowOnce == n > 0 => \A a \in 1..3 :
    LET qs == {q \in Questions : Answerable(q) /\ q[a] = -1}
    IN \A i \in DOMAIN tab.rows : Cardinality({q \in qs : \E j \in DOMAIN Line(tab, q, 1) :
          Line(tab, q, 1)[j] = <<tab.rows[i].p[a], tab.rows[i].v[1]>> /\ \A k \in Given(q) : tab.rows[i].p[k] = q[k]}) = 1
(* what is drawn along a line is the row or column of the picture of the plane *)
LineMeetsPicture == (n > 0 /\ Flat(tab)) => \A q \in {q \in Questions : Answerable(q) /\ q[3] # -1} : \A j \in DOMAIN Line(tab, q, 1) :
    LET u == Line(tab, q, 1)[j] IN u[2] = (IF Axis(q) = 1 THEN Picture(tab, 1)[u[1] + 1][q[2] + 1] ELSE Picture(tab, 1)[q[1] + 1][u[1] + 1])
(* neither depends on the order of the rows *)
OrderFree == n > 0 => LET s == [tab EXCEPT !.rows = SortSeq(tab.rows, LAMBDA a, b : Before(a.p, b.p))] IN
    /\ Orderly(s) /\ \A q \in {q \in Questions : Answerable(q)} : Along(s, q)
    /\ \A q \in {q \in Questions : Answerable(q)} : Line(tab, q, 1) = Line(s, q, 1)
    /\ Flat(tab) => Picture(tab, 1) = Picture(s, 1)
Emit == (Gen /\ n = MaxOps + 1) => PrintT("@@P " \o ToJson([tab |-> tab, ops |-> ops]))
=============================================================================
