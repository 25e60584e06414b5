----------------------------- MODULE FieldDBTrace ----------------------------
(* Accepts or rejects recordings of the real database. A recording is a      *)
(* sequence of behaviours, each starting with a "reset" line; every other    *)
(* line is an operation with its arguments, what it returned, and the        *)
(* logical content of the file afterwards.                                   *)
EXTENDS FieldDB, Grid, Json
Recs == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, live
vars == <<l, st, live>>

FieldSet(rows) == {[sim |-> r[1], step |-> r[2], name |-> r[3], tok |-> r[4]] : r \in Rng(rows)}
Rows3(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], tok |-> rows[i][3]]]
Rows4(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], step |-> rows[i][3], tok |-> rows[i][4]]]
Comments(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], text |-> rows[i][2]]]

(* the observed content of the file is the specified one *)
Content(s, o) == /\ o.ids = s.ids
                 /\ FieldSet(o.fields) = s.fields /\ Len(o.fields) = Cardinality(s.fields)
                 /\ Comments(o.comments) = s.comments
                 /\ SameBag(Rows3(o.attrs), s.attrs) /\ SameBag(Rows3(o.texts), s.texts)
                 /\ SameBag(Rows4(o.series), s.series)
(* the position table: every node once, numbered from zero, with its coordinates *)
PositionTable(s, o) ==
    LET n == Prod(s.dom) IN
    IF s.dom = <<>> THEN o.positions = <<>>
    ELSE /\ Len(o.positions) = n
         /\ \A i \in 1..n : o.positions[i] = <<i - 1>> \o Pad3(PosOf(s.dom, i - 1), 0)
(* rows joined to positions through the identifier: the value of node k lies at the position of node k *)
Joined(s, o) == \A i \in 1..Len(o.joined) :
    LET j == o.joined[i] IN j[1] \in Nodes(s.dom) /\ SubSeq(j, 2, 4) = Pad3(PosOf(s.dom, j[1]), 0)
Complete(s, o) == Len(o.joined) = Cardinality(s.fields) * (IF s.dom = <<>> THEN 0 ELSE Prod(s.dom))

CONSTANT What      \* "content" (C09) or "positions" (C10)
Matches(e) ==
    LET s1 == After(st, e.args) IN
    IF What = "content"
    THEN /\ e.refused = Refused(st, e.args)
         /\ e.result = Result(st, e.args)
         /\ Content(s1, e.obs)
    ELSE PositionTable(s1, e.obs) /\ Joined(s1, e.obs) /\ Complete(s1, e.obs)

Init == l = 1 /\ st = Empty /\ live = FALSE
More == l <= Len(Recs) /\ l' = l + 1
Reset == More /\ Recs[l].ev = "reset" /\ st' = Empty /\ live' = TRUE
Step == More /\ Recs[l].ev = "op" /\ live /\ Matches(Recs[l]) /\ st' = After(st, Recs[l].args) /\ UNCHANGED live
Reject == More /\ Recs[l].ev = "op" /\ live /\ ~Matches(Recs[l])
          /\ PrintT("@@REJECT " \o ToJson([line |-> l, expected |-> After(st, Recs[l].args), result |-> Result(st, Recs[l].args)]))
          /\ live' = FALSE /\ UNCHANGED st
Skip == More /\ Recs[l].ev = "op" /\ ~live /\ UNCHANGED <<st, live>>
Next == Reset \/ Step \/ Reject \/ Skip
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
