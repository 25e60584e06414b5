--------------------------- MODULE FieldDBCrashMC ----------------------------
(* All crash points of all short sequences of store operations.              *)
EXTENDS FieldDBCrash
CONSTANTS Handles, Shapes, Names, Steps, Toks, MaxOps, MaxCrash
ShapesMC == {<<2, 2>>, <<2, 3>>}
VARIABLES st,     \* committed content
          base,   \* content when the running operation began
          cur,    \* the running operation
          todo,   \* contents after the remaining transactions
          side,   \* rows of the running transaction written so far (0..2, out of 2)
          alive,  \* handles of the running process
          n, crashes, ended
vars == <<st, base, cur, todo, side, alive, n, crashes, ended>>
None == [op |-> "none", h |-> 0, shape |-> <<>>, step |-> 0, pairs |-> <<>>, text |-> 0, sim |-> 0]
Pairs == {<<<<a, t>>>> : a \in Names, t \in Toks} \cup {<<<<a, t>>, <<b, u>>>> : a \in Names, b \in Names, t \in Toks, u \in Toks}
Distinct(p) == \A i, j \in 1..Len(p) : i # j => p[i][1] # p[j][1]
Ops == UNION {{[None EXCEPT !.op = x, !.h = h, !.shape = s, !.step = k, !.pairs = p] : x \in {"save", "attr", "text", "series"},
               s \in Shapes, k \in Steps, p \in {q \in Pairs : Distinct(q)}} : h \in Handles}
       \cup {[None EXCEPT !.op = "comment", !.h = h, !.text = t] : h \in Handles, t \in Toks}
Init == st = Empty /\ base = Empty /\ cur = None /\ todo = <<>> /\ side = 0 /\ alive = Handles /\ n = 0 /\ crashes = 0 /\ ended = {}
Begin == /\ cur.op = "none" /\ n < MaxOps
         /\ \E o \in Ops : /\ o.h \in alive
                           /\ (o.op = "save" => \A i \in 1..Len(o.pairs), f \in st.fields : ~(f.sim = o.h /\ f.step = o.step /\ f.name = o.pairs[i][1]))
                           /\ cur' = o /\ todo' = Parts(st, o)
         /\ base' = st /\ side' = 0 /\ n' = n + 1 /\ UNCHANGED <<st, alive, crashes, ended>>
Write == todo # <<>> /\ side < 2 /\ side' = side + 1 /\ UNCHANGED <<st, base, cur, todo, alive, n, crashes, ended>>
Commit == todo # <<>> /\ side = 2 /\ st' = Head(todo) /\ todo' = Tail(todo) /\ side' = 0 /\ UNCHANGED <<base, cur, alive, n, crashes, ended>>
Return == cur.op # "none" /\ todo = <<>> /\ cur' = None /\ base' = st /\ ended' = ended \cup {st} /\ UNCHANGED <<st, todo, side, alive, n, crashes>>
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ alive' = alive \ Rng(st.ids) /\ cur' = None /\ todo' = <<>> /\ side' = 0 /\ base' = st
         /\ UNCHANGED <<st, n, ended>>
Next == Begin \/ Write \/ Commit \/ Return \/ Crash
Spec == Init /\ [][Next]_vars
View == <<st, base, cur, todo, side, alive, n, crashes>>
(* ---- properties ---- *)
Atomic == Allowed(base, cur, st)                       \* at every moment, so at every crash point
Sound == /\ \A f \in st.fields : f.sim \in Rng(st.ids)
         /\ (st.fields # {} => st.dom # <<>>)
(* what a returned call stored is there ever after *)
Kept(a, b) == /\ a.fields \subseteq b.fields /\ Len(a.comments) <= Len(b.comments) /\ (a.dom # <<>> => a.dom = b.dom)
              /\ (\A x \in Rng(a.attrs) : Count(a.attrs, x) <= Count(b.attrs, x))
              /\ (\A y \in Rng(a.series) : Count(a.series, y) <= Count(b.series, y))
Durable == \A s \in ended : Kept(s, st)
CrashKeeps == [][crashes' # crashes => st' = st]_vars
=============================================================================
