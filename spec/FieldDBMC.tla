------------------------------ MODULE FieldDBMC ------------------------------
(* Behaviours of the database under all interleavings of the operations of   *)
(* several simulations, and the properties that every behaviour must have.   *)
EXTENDS FieldDB, Json, Randomization
CONSTANTS Handles, Shapes, Names, Steps, Toks, Keys, Texts, MaxOps, Gen
VARIABLES st, shapeOf, last, res, hist, n
ShapesMC == {<<2, 2>>, <<2, 3>>}
ShapesGen == {<<2, 3>>, <<3, 2>>, <<2, 3, 2>>, <<3, 2, 1>>, <<1, 1>>, <<1, 4>>, <<2, 2, 3>>, <<3, 1, 2>>}
vars == <<st, shapeOf, last, res, hist, n>>

NoOp == [op |-> "none", h |-> 0, shape |-> <<>>, step |-> 0, pairs |-> <<>>, text |-> 0, sim |-> 0]
Op(op, h) == [NoOp EXCEPT !.op = op, !.h = h, !.shape = shapeOf[h]]

Init == /\ st = Empty /\ shapeOf \in [Handles -> Shapes] /\ (Gen => Cardinality(Rng(shapeOf)) < Cardinality(Handles)) /\ last = NoOp /\ res = <<>> /\ hist = <<>> /\ n = 0

Fresh(h, step, name) == \A f \in st.fields : ~(f.sim = h /\ f.step = step /\ f.name = name)
(* sequences of <<name, token>> with distinct names in any order *)
NamePairs == {<<<<a, t>>>> : a \in Names, t \in Toks}
             \cup {<<<<a, t>>, <<b, u>>>> : a \in Names, b \in Names, t \in Toks, u \in Toks}
DistinctNames(p) == \A i, j \in 1..Len(p) : i # j => p[i][1] # p[j][1]
KeyPairs == {<<<<a, t>>>> : a \in Keys, t \in Toks} \cup {<<<<a, t>>, <<b, u>>>> : a \in Keys, b \in Keys, t \in Toks, u \in Toks}

Do(o) == /\ n < MaxOps
         /\ last' = o /\ res' = Result(st, o) /\ st' = After(st, o)
         /\ n' = n + 1
         /\ hist' = IF Gen THEN Append(hist, o) ELSE hist
         /\ UNCHANGED shapeOf
(* a random choice per step when generating; the dependence on n keeps TLC from caching the choice *)
Pick(S) == IF Gen THEN RandomSubset(1, {x \in S : n >= 0}) ELSE S
PickN(k, S) == IF Gen THEN RandomSubset(k, {x \in S : n >= 0}) ELSE S
Save(h)    == \E s \in Pick(Steps), p \in PickN(4, {q \in NamePairs : DistinctNames(q)}) :
                 /\ \A i \in 1..Len(p) : Fresh(h, s, p[i][1])
                 /\ Do([Op("save", h) EXCEPT !.step = s, !.pairs = p])
Comment(h) == \E t \in Pick(Texts) : Do([Op("comment", h) EXCEPT !.text = t])
Attr(h)    == \E p \in Pick({q \in KeyPairs : DistinctNames(q)}) : Do([Op("attr", h) EXCEPT !.pairs = p])
Text(h)    == \E p \in Pick({q \in KeyPairs : DistinctNames(q)}) : Do([Op("text", h) EXCEPT !.pairs = p])
Series(h)  == \E s \in Pick(Steps), p \in Pick({q \in KeyPairs : DistinctNames(q)}) :
                 Do([Op("series", h) EXCEPT !.step = s, !.pairs = p])
Load(h)    == st.dom # <<>> /\ \E m \in Pick(Rng(st.ids)) : \E s \in Pick(Steps) \cup StepsOf(st, m) : Do([Op("load", h) EXCEPT !.step = s, !.sim = m])
LoadLast(h) == st.dom # <<>> /\ \E m \in Pick(Rng(st.ids)) : Do([Op("loadlast", h) EXCEPT !.sim = m])
Reopen     == Len(st.ids) > 0 /\ Do([NoOp EXCEPT !.op = "reopen"])
Next == (\E h \in Handles : Save(h) \/ Comment(h) \/ Attr(h) \/ Text(h) \/ Series(h) \/ Load(h) \/ LoadLast(h)) \/ Reopen
Spec == Init /\ [][Next]_vars

(* -------- properties -------- *)
View == <<st, shapeOf, n>>
TypeOK == /\ st.dom \in Shapes \cup {<<>>}
          /\ \A f \in st.fields : f.sim \in Rng(st.ids)
          /\ \A i, j \in 1..Len(st.ids) : i # j => st.ids[i] # st.ids[j]
          /\ (st.fields # {}) => st.dom # <<>>
(* one value per simulation, step and name *)
Functional == \A f, g \in st.fields : f.sim = g.sim /\ f.step = g.step /\ f.name = g.name => f = g
(* an operation of one simulation never touches what belongs to another *)
Of(s, sim) == [fields |-> {f \in s.fields : f.sim = sim},
               comments |-> SelectSeq(s.comments, LAMBDA c : c.sim = sim),
               attrs |-> SelectSeq(s.attrs, LAMBDA c : c.sim = sim),
               texts |-> SelectSeq(s.texts, LAMBDA c : c.sim = sim),
               series |-> SelectSeq(s.series, LAMBDA c : c.sim = sim)]
Isolation == [][\A sim \in Handles : last'.h # sim => Of(st', sim) = Of(st, sim)]_vars
(* positions are written once; stored rows are never lost *)
Durable == [][/\ (st.dom # <<>> => st'.dom = st.dom)
              /\ st.fields \subseteq st'.fields
              /\ Len(st'.comments) >= Len(st.comments)]_vars
(* a refused save changes no stored data *)
RefusalHarmless == [][last'.op = "save" /\ ~SameDomain(st.dom, last'.shape) =>
                        st'.fields = st.fields /\ st'.dom = st.dom /\ st'.series = st.series]_vars
ReadsHarmless == [][last'.op \in {"load", "loadlast", "reopen"} => st' = st]_vars
(* generation of behaviours: print the history when it is complete *)
Emit == (Gen /\ n = MaxOps) => PrintT("@@B " \o ToJson([ops |-> hist, shapes |-> shapeOf]))
=============================================================================
