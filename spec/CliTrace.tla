------------------------------ MODULE CliTrace -------------------------------
(* Accepts or rejects what the command line program showed and did.          *)
EXTENDS CliView, Json
Recs == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, times, live
vars == <<l, st, times, live>>
FieldSet(rows) == {[sim |-> r[1], step |-> r[2], name |-> r[3], tok |-> r[4]] : r \in Rng(rows)}
Rows3(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], tok |-> rows[i][3]]]
Rows4(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], step |-> rows[i][3], tok |-> rows[i][4]]]
Comments(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], text |-> rows[i][2]]]
Content(s, o) == /\ o.ids = s.ids
                 /\ FieldSet(o.fields) = s.fields /\ Len(o.fields) = Cardinality(s.fields)
                 /\ Comments(o.comments) = s.comments
                 /\ SameBag(Rows3(o.attrs), s.attrs) /\ SameBag(Rows3(o.texts), s.texts)
                 /\ SameBag(Rows4(o.series), s.series)
Init == l = 1 /\ st = Empty /\ times = <<>> /\ live = FALSE
More == l <= Len(Recs) /\ l' = l + 1
Reset == More /\ Recs[l].ev = "reset" /\ st' = Empty /\ times' = Recs[l].times /\ live' = TRUE
Op == More /\ Recs[l].ev = "op" /\ live /\ st' = After(st, Recs[l].args) /\ UNCHANGED <<times, live>>
(* a database that is not what was stored is another property's matter *)
Start == More /\ Recs[l].ev = "start" /\ live /\ live' = Content(st, Recs[l].obs) /\ UNCHANGED <<st, times>>
         /\ (~Content(st, Recs[l].obs) => PrintT("@@UNUSABLE " \o ToJson([line |-> l])))
Cmd == /\ More /\ Recs[l].ev = "cmd" /\ live
       /\ LET e == Recs[l]  q == e.cmd  s1 == AfterCmd(st, q) IN
          /\ (IF e.facts.bad THEN PrintT("@@REJECT " \o ToJson([line |-> l, what |-> "unreadable", st |-> st]))
              ELSE IF ~Right(st, times, q, e.facts) THEN PrintT("@@REJECT " \o ToJson([line |-> l, what |-> "shown", st |-> st]))
              ELSE IF ~Content(s1, e.obs) THEN PrintT("@@REJECT " \o ToJson([line |-> l, what |-> "changed", st |-> s1]))
              ELSE TRUE)
          /\ live' = Content(s1, e.obs) /\ st' = s1 /\ UNCHANGED times
Skip == More /\ Recs[l].ev # "reset" /\ ~live /\ UNCHANGED <<st, times, live>>
Next == Reset \/ Op \/ Start \/ Cmd \/ Skip
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
