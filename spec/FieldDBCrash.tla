---------------------------- MODULE FieldDBCrash -----------------------------
(* The database when the process that stores can die at any moment. An       *)
(* operation is a sequence of transactions (FieldDB!Parts); a transaction is *)
(* written row by row to the side and takes effect in one moment. A crash    *)
(* loses what is not committed and all handles; a new process starts with    *)
(* new simulations.                                                          *)
EXTENDS FieldDB
Rows3(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], tok |-> rows[i][3]]]

(* what may be found when operation o was interrupted in state b: each record is there completely or not at all, whatever
   the order in which its parts are stored *)
New(o) == {[sim |-> o.h, step |-> o.step, name |-> o.pairs[i][1], tok |-> o.pairs[i][2]] : i \in 1..Len(o.pairs)}
Bags(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)
Allowed(b, o, s) ==
    /\ s.ids \in {b.ids, IF o.h > 0 THEN Register(b, o.h).ids ELSE b.ids}
    /\ s.dom \in {b.dom, IF o.op = "save" THEN Populate(b, o.shape).dom ELSE b.dom}
    /\ b.fields \subseteq s.fields
    /\ s.fields \subseteq b.fields \cup (IF o.op = "save" /\ ~Refused(b, o) THEN New(o) ELSE {})
    /\ (s.fields # {} => s.dom # <<>>)
    /\ s.comments \in {b.comments, IF o.op = "comment" THEN After(b, o).comments ELSE b.comments}
    /\ Bags(s.attrs, b.attrs) \/ (o.op = "attr" /\ Bags(s.attrs, After(b, o).attrs))
    /\ Bags(s.texts, b.texts) \/ (o.op = "text" /\ Bags(s.texts, After(b, o).texts))
    /\ Bags(s.series, b.series) \/ (o.op = "series" /\ Bags(s.series, After(b, o).series))
=============================================================================
