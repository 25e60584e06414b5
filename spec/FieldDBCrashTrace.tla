-------------------------- MODULE FieldDBCrashTrace --------------------------
(* Accepts or rejects recordings of interrupted processes: operations that   *)
(* returned, and what the reopened file holds after an interruption.         *)
EXTENDS FieldDBCrash, Grid, Json
Recs == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, live
vars == <<l, st, live>>
FieldSet(rows) == {[sim |-> r[1], step |-> r[2], name |-> r[3], tok |-> r[4]] : r \in Rng(rows)}
Rows4(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], key |-> rows[i][2], step |-> rows[i][3], tok |-> rows[i][4]]]
Comments(rows) == [i \in 1..Len(rows) |-> [sim |-> rows[i][1], text |-> rows[i][2]]]
Table(dom) == IF dom = <<>> THEN <<>> ELSE [i \in 1..Prod(dom) |-> <<i - 1>> \o Pad3(PosOf(dom, i - 1), 0)]
(* the specification's state that an observed file stands for; a position table that is none of the complete ones gives
   a domain that is never allowed *)
Dom(b, o, obs) == IF obs.positions = <<>> THEN <<>>
                  ELSE IF obs.positions = Table(b.dom) THEN b.dom
                  ELSE IF o.op = "save" /\ obs.positions = Table(o.shape) THEN o.shape ELSE <<0>>
State(b, o, obs) == [dom |-> Dom(b, o, obs), ids |-> obs.ids, fields |-> FieldSet(obs.fields), comments |-> Comments(obs.comments),
                     attrs |-> Rows3(obs.attrs), texts |-> Rows3(obs.texts), series |-> Rows4(obs.series)]
Whole(obs) == Len(obs.fields) = Cardinality(FieldSet(obs.fields)) /\ \A r \in Rng(obs.fields) : r[4] > 0
Good(e) == /\ ~e.unreadable /\ Whole(e.obs)
           /\ Allowed(st, e.args, State(st, e.args, e.obs))

Init == l = 1 /\ st = Empty /\ live = FALSE
More == l <= Len(Recs) /\ l' = l + 1
Say(what) == PrintT("@@REJECT " \o ToJson([line |-> l, what |-> what, before |-> st]))
Reset == More /\ Recs[l].ev = "reset" /\ st' = Empty /\ live' = TRUE
Op == /\ More /\ Recs[l].ev = "op" /\ live
      /\ IF Recs[l].refused = Refused(st, Recs[l].args) THEN st' = After(st, Recs[l].args) /\ live' = TRUE
         ELSE Say("refused") /\ live' = FALSE /\ UNCHANGED st
Crash == /\ More /\ Recs[l].ev = "crash" /\ live
         /\ IF Good(Recs[l]) THEN st' = State(st, Recs[l].args, Recs[l].obs) /\ live' = TRUE
            ELSE Say("content") /\ live' = FALSE /\ UNCHANGED st
Dead == More /\ Recs[l].ev = "dead" /\ live /\ Say("dead") /\ live' = FALSE /\ UNCHANGED st
Skip == More /\ Recs[l].ev # "reset" /\ ~live /\ UNCHANGED <<st, live>>
Next == Reset \/ Op \/ Crash \/ Dead \/ Skip
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
