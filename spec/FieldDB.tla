------------------------------- MODULE FieldDB -------------------------------
(* The field database: one file shared by several simulations (handles).     *)
(*                                                                            *)
(* A store operation of the API is a sequence of atomic file transactions     *)
(* (Parts below); the model takes a whole operation in one step (Do) when     *)
(* nothing is interrupted, and part by part in FieldDBCrash.                  *)
(*                                                                            *)
(* Data values are tokens: one token stands for the values of a field at all  *)
(* nodes, one for the value of an attribute or time series entry, one for a   *)
(* comment. Names and keys are numbers in name order.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

Empty == [dom |-> <<>>,       \* extents described by the position table, <<>> while it is empty
          ids |-> <<>>,       \* registered simulations, in order of registration
          fields |-> {},      \* [sim, step, name, tok]
          comments |-> <<>>,  \* [sim, text]
          attrs |-> <<>>, texts |-> <<>>,   \* [sim, key, tok]
          series |-> <<>>]    \* [sim, key, step, tok]

(* pairs is a sequence of <<key or name, token>> *)
Entries(h, pairs) == [i \in 1..Len(pairs) |-> [sim |-> h, key |-> pairs[i][1], tok |-> pairs[i][2]]]
SeriesEntries(h, step, pairs) ==
    [i \in 1..Len(pairs) |-> [sim |-> h, key |-> pairs[i][1], step |-> step, tok |-> pairs[i][2]]]

(* -------- atomic parts of the operations -------- *)
Register(st, h) == IF h \in Rng(st.ids) THEN st ELSE [st EXCEPT !.ids = Append(@, h)]
Populate(st, shape) == IF st.dom = <<>> THEN [st EXCEPT !.dom = shape] ELSE st
PutField(st, h, step, nt) ==
    [st EXCEPT !.fields = {f \in @ : ~(f.sim = h /\ f.step = step /\ f.name = nt[1])}
                          \cup {[sim |-> h, step |-> step, name |-> nt[1], tok |-> nt[2]]}]

(* the position table stores three coordinates: a 2D domain is one layer of a 3D one *)
Full(shape) == IF Len(shape) = 2 THEN shape \o <<1>> ELSE shape
SameDomain(a, b) == a = <<>> \/ b = <<>> \/ Full(a) = Full(b)

(* op: [op, h, shape, step, pairs, text, sim] ; the parts it consists of, as a sequence of states *)
RECURSIVE FieldStates(_, _, _, _)
FieldStates(st, h, step, pairs) ==
    IF pairs = <<>> THEN <<>>
    ELSE LET s1 == PutField(st, h, step, Head(pairs)) IN <<s1>> \o FieldStates(s1, h, step, Tail(pairs))

Refused(st, o) == o.op = "save" /\ ~SameDomain(Populate(st, o.shape).dom, o.shape)

Parts(st, o) ==
    LET r == Register(st, o.h) IN
    CASE o.op = "save" ->
            IF Refused(st, o) THEN <<r>>
            ELSE LET p == Populate(r, o.shape) IN <<r, p>> \o FieldStates(p, o.h, o.step, o.pairs)
      [] o.op = "comment" -> <<r, [r EXCEPT !.comments = Append(@, [sim |-> o.h, text |-> o.text])]>>
      [] o.op = "attr"    -> <<r, [r EXCEPT !.attrs = @ \o Entries(o.h, o.pairs)]>>
      [] o.op = "text"    -> <<r, [r EXCEPT !.texts = @ \o Entries(o.h, o.pairs)]>>
      [] o.op = "series"  -> <<r, [r EXCEPT !.series = @ \o SeriesEntries(o.h, o.step, o.pairs)]>>
      [] OTHER -> <<st>>           \* load, loadlast, reopen: no change
After(st, o) == LET p == Parts(st, o) IN p[Len(p)]

(* -------- what a load returns: the stored fields in name order -------- *)
StepsOf(st, sim) == {f.step : f \in {g \in st.fields : g.sim = sim}}
At(st, sim, step) == {f \in st.fields : f.sim = sim /\ f.step = step}
RECURSIVE InNameOrder(_)
InNameOrder(S) == IF S = {} THEN <<>>
                  ELSE LET f == CHOOSE x \in S : \A y \in S : x.name <= y.name
                       IN <<<<f.name, f.tok>>>> \o InNameOrder(S \ {f})
LoadResult(st, sim, step) == InNameOrder(At(st, sim, step))
LastStep(st, sim) == CHOOSE s \in StepsOf(st, sim) : \A t \in StepsOf(st, sim) : t <= s
LoadLastResult(st, sim) == IF StepsOf(st, sim) = {} THEN <<>> ELSE LoadResult(st, sim, LastStep(st, sim))
Result(st, o) ==
    CASE o.op = "load" -> LoadResult(st, o.sim, o.step)
      [] o.op = "loadlast" -> LoadLastResult(st, o.sim)
      [] OTHER -> <<>>
=============================================================================
