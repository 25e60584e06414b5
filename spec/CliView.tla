------------------------------- MODULE CliView -------------------------------
(* What each command of the command line shows of a database (FieldDB), as   *)
(* facts: numbers of simulations, keys, steps and tokens of values. Layout   *)
(* is not part of the facts. t maps a simulation to its creation time.       *)
EXTENDS FieldDB
Newer(st, t, a, b) == \/ t[a] > t[b]
                      \/ t[a] = t[b] /\ (\E i, j \in 1..Len(st.ids) : st.ids[i] = a /\ st.ids[j] = b /\ i > j)
RECURSIVE Sorted(_, _, _)
Sorted(st, t, S) == IF S = {} THEN <<>>
                    ELSE LET x == CHOOSE a \in S : \A b \in S \ {a} : Newer(st, t, a, b) IN <<x>> \o Sorted(st, t, S \ {x})
NewestFirst(st, t) == Sorted(st, t, Rng(st.ids))
Newest(st, t) == NewestFirst(st, t)[1]
Least(a, b) == IF a < b THEN a ELSE b
Shown(st, t, max) == SubSeq(NewestFirst(st, t), 1, Least(max, Len(st.ids)))
(* the simulation a command is about: the one given (a positive number; 0 is one that does not exist), otherwise the newest *)
About(st, t, q) == IF q.sim >= 0 THEN q.sim ELSE Newest(st, t)
CommentsOf(st, sim) == LET c == SelectSeq(st.comments, LAMBDA x : x.sim = sim) IN [i \in 1..Len(c) |-> c[i].text]
All(q, sim) == q.sim < 0 \/ sim = q.sim
(* values an attribute cell may show *)
Values(st, sim, key) == {<<"num", st.attrs[i].tok>> : i \in {j \in 1..Len(st.attrs) : st.attrs[j].sim = sim /\ st.attrs[j].key = key}}
                        \cup {<<"text", st.texts[i].tok>> : i \in {j \in 1..Len(st.texts) : st.texts[j].sim = sim /\ st.texts[j].key = key}}
AttrSims(st, q) == {s \in Rng(st.ids) : All(q, s) /\ ((\E i \in 1..Len(st.attrs) : st.attrs[i].sim = s) \/ (\E j \in 1..Len(st.texts) : st.texts[j].sim = s))}
KeysOf(seq, S) == {seq[i].key : i \in {j \in 1..Len(seq) : seq[j].sim \in S}}
AttrKeys(st, S) == KeysOf(st.attrs, S) \cup KeysOf(st.texts, S)
SeriesOf(st, sim) == {st.series[i] : i \in {j \in 1..Len(st.series) : st.series[j].sim = sim}}
SeriesAt(st, sim, step, key) == {e.tok : e \in {x \in SeriesOf(st, sim) : x.step = step /\ x.key = key}}

(* the facts f shown by command q are right *)
TableRight(st, q, f) ==
    /\ {r.sim : r \in Rng(f.rows)} = AttrSims(st, q) /\ Len(f.rows) = Cardinality(AttrSims(st, q))
    /\ Rng(f.header) = AttrKeys(st, AttrSims(st, q)) /\ Len(f.header) = Cardinality(Rng(f.header))
    /\ \A r \in Rng(f.rows) : \A i \in 1..Len(f.header) :
          LET v == Values(st, r.sim, f.header[i]) IN IF v = {} THEN r.cells[i] = <<"", 0>> ELSE r.cells[i] \in v
SingleRight(st, q, f) ==
    SameBag(f.rows, [i \in 1..Len(SelectSeq(st.attrs, LAMBDA x : x.key = q.key /\ All(q, x.sim))) |->
                       LET x == SelectSeq(st.attrs, LAMBDA y : y.key = q.key /\ All(q, y.sim))[i] IN <<x.sim, "num", x.tok>>]
                    \o [i \in 1..Len(SelectSeq(st.texts, LAMBDA x : x.key = q.key /\ All(q, x.sim))) |->
                       LET x == SelectSeq(st.texts, LAMBDA y : y.key = q.key /\ All(q, y.sim))[i] IN <<x.sim, "text", x.tok>>])
SeriesRight(st, sim, f) ==
    LET E == SeriesOf(st, sim)  steps == {e.step : e \in E} IN
    /\ Rng(f.header) = {e.key : e \in E} /\ Len(f.header) = Cardinality(Rng(f.header))
    /\ {r.step : r \in Rng(f.rows)} = steps /\ Len(f.rows) = Cardinality(steps)
    /\ \A i, j \in 1..Len(f.rows) : i < j => f.rows[i].step < f.rows[j].step
    /\ \A r \in Rng(f.rows) : \A i \in 1..Len(f.header) :
          LET v == SeriesAt(st, sim, r.step, f.header[i]) IN IF v = {} THEN r.cells[i] = 0 ELSE r.cells[i] \in v
(* file: the columns of one exported step, every row at the position of its node *)
FileRight(st, sim, file) == /\ file.positions
                            /\ At(st, sim, file.step) # {}
                            /\ SameBag(file.cols, LoadResult(st, sim, file.step))
FieldsRight(st, sim, step, f) ==
    IF At(st, sim, step) = {} THEN f.files = <<>>
    ELSE Len(f.files) = 1 /\ f.files[1].step = step /\ FileRight(st, sim, f.files[1])
AllFieldsRight(st, sim, f) == /\ {x.step : x \in Rng(f.files)} = StepsOf(st, sim) /\ Len(f.files) = Cardinality(StepsOf(st, sim))
                              /\ \A x \in Rng(f.files) : FileRight(st, sim, x)
InfoRight(st, f) == /\ f.num = Len(st.ids)
                    /\ (st.dom # <<>> => f.dims = Full(st.dom))
                    /\ Rng(f.fields) = {x.name : x \in st.fields}
                    /\ Rng(f.attrs) = AttrKeys(st, Rng(st.ids))
                    /\ Rng(f.series) = {st.series[i].key : i \in 1..Len(st.series)}
Right(st, t, q, f) ==
    LET sim == About(st, t, q)  shown == Shown(st, t, q.max) IN
    CASE q.kind = "ids" -> f.rows = [i \in 1..Len(shown) |-> <<shown[i], t[shown[i]]>>]
      [] q.kind = "comments" -> f.rows = [i \in 1..Len(shown) |-> [sim |-> shown[i], texts |-> CommentsOf(st, shown[i])]]
      [] q.kind = "comment" -> f.sim = q.sim /\ f.texts = CommentsOf(st, q.sim)
      [] q.kind = "allcomments" -> SameBag(f.rows, [i \in 1..Len(st.comments) |-> <<st.comments[i].sim, st.comments[i].text>>])
      [] q.kind = "replace" -> f.done = (CommentsOf(st, q.sim) # <<>>)
      [] q.kind = "attrs" -> TableRight(st, q, f)
      [] q.kind = "attr" -> SingleRight(st, q, f)
      [] q.kind = "unique" -> Rng(f.keys) = AttrKeys(st, Rng(st.ids)) /\ Len(f.keys) = Cardinality(Rng(f.keys))
      [] q.kind = "time" -> f.sim = sim /\ (IF sim \in Rng(st.ids) THEN f.time = t[sim] ELSE f.time = 0)
      [] q.kind = "info" -> InfoRight(st, f)
      [] q.kind = "series" -> SeriesRight(st, sim, f)
      [] q.kind = "field" -> FieldsRight(st, sim, IF q.step >= 0 THEN q.step ELSE IF StepsOf(st, sim) = {} THEN -1 ELSE LastStep(st, sim), f)
      [] q.kind = "allfields" -> AllFieldsRight(st, sim, f)
(* replacing is the only command with an effect *)
AfterCmd(st, q) == IF q.kind = "replace" THEN [st EXCEPT !.comments = [i \in 1..Len(@) |-> IF @[i].sim = q.sim THEN [@[i] EXCEPT !.text = q.text] ELSE @[i]]]
                   ELSE st
=============================================================================
