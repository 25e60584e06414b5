------------------------------- MODULE CliMC ---------------------------------
(* The views over all reachable databases: they are determined by what is    *)
(* stored, show everything, and nothing of another simulation.               *)
EXTENDS CliView
CONSTANTS Handles, MaxOps
VARIABLES st, t, n, last
vars == <<st, t, n, last>>
None == [op |-> "none", h |-> 0, shape |-> <<2, 2>>, step |-> 0, pairs |-> <<>>, text |-> 0, sim |-> 0]
Q == [kind |-> "", sim |-> -1, key |-> 0, step |-> 0, max |-> 20, text |-> 0]
Init == st = Empty /\ t \in [Handles -> {1, 2}] /\ n = 0 /\ last = None
Ops == {[None EXCEPT !.op = o, !.h = h, !.step = s, !.pairs = <<<<k, v>>>>] : o \in {"save", "attr", "text", "series"}, h \in Handles, s \in {0, 1}, k \in {1}, v \in {1, 2}}
       \cup {[None EXCEPT !.op = "comment", !.h = h, !.text = x] : h \in Handles, x \in {1, 2}}
Store == n < MaxOps /\ \E o \in Ops : /\ (o.op = "save" => \A f \in st.fields : ~(f.sim = o.h /\ f.step = o.step))
                                      /\ st' = After(st, o) /\ last' = o /\ n' = n + 1 /\ UNCHANGED t
Replace == n < MaxOps /\ \E h \in Rng(st.ids), x \in {1, 2} : /\ st' = AfterCmd(st, [Q EXCEPT !.kind = "replace", !.sim = h, !.text = x])
                                                       /\ last' = [None EXCEPT !.op = "replace", !.h = h] /\ n' = n + 1 /\ UNCHANGED t
Next == Store \/ Replace
Spec == Init /\ [][Next]_vars
View == <<st, t, n>>
(* ---- properties ---- *)
OrderTotal == LET s == NewestFirst(st, t) IN Rng(s) = Rng(st.ids) /\ Len(s) = Len(st.ids) /\ \A i, j \in 1..Len(s) : i < j => t[s[i]] >= t[s[j]]
Views(s, sim) == <<CommentsOf(s, sim), {<<k, Values(s, sim, k)>> : k \in 1..2}, SeriesOf(s, sim), {<<x, LoadResult(s, sim, x)>> : x \in StepsOf(s, sim)}>>
OnlyOwn == [][\A sim \in Handles : last'.h # sim => Views(st', sim) = Views(st, sim)]_vars
Complete == /\ \A i \in 1..Len(st.comments) : \E k \in 1..Len(CommentsOf(st, st.comments[i].sim)) : CommentsOf(st, st.comments[i].sim)[k] = st.comments[i].text
            /\ \A i \in 1..Len(st.attrs) : <<"num", st.attrs[i].tok>> \in Values(st, st.attrs[i].sim, st.attrs[i].key)
            /\ \A f \in st.fields : <<f.name, f.tok>> \in Rng(LoadResult(st, f.sim, f.step))
(* the two ways to ask for the attributes agree: the whole table consists of the tables of the simulations *)
TableAgrees == AttrSims(st, Q) = UNION {AttrSims(st, [Q EXCEPT !.sim = h]) : h \in Rng(st.ids)}
=============================================================================
