------------------------------ MODULE ImageTrace -----------------------------
(* Accepts or rejects recordings of grids.                                    *)
EXTENDS Image, Json
Recs == ndJsonDeserialize("trace.ndjson")
VARIABLES l, img
vars == <<l, img>>
Good(r) == LET s == r.shape IN
    CASE r.op.op = "fill" -> r.after = [i \in 1..NumNodes(s) |-> 1000 + i]
      [] r.op.op = "build" -> r.after = Built(s, r.op.c, img, FALSE)
      [] r.op.op = "turn" /\ Len(s) = 2 -> Turned(s, r.op.t, img, r.after)
      [] r.op.op = "tilt" /\ Len(s) = 2 -> Tilted(s, r.op.t, img, r.after)
      [] r.op.op \in {"turn", "tilt"} /\ Len(s) = 3 -> r.refused /\ r.after = img
      [] r.op.op \in {"copy", "complex"} -> r.good /\ r.after = img
      [] r.op.op = "csv" -> r.table = Table(s, img) /\ r.header = (IF Len(s) = 2 THEN <<"x", "y", "value">> ELSE <<"x", "y", "z", "value">>) /\ r.after = img
Refusals(r) == r.refused => Len(r.shape) = 3 /\ r.op.op \in {"turn", "tilt"}
KnownBorder(r) == r.op.op = "build" /\ ~r.refused /\ r.after = Built(r.shape, r.op.c, img, TRUE)
Init == l = 1 /\ img = <<>>
More == l <= Len(Recs) /\ l' = l + 1 /\ img' = Recs[l].after
Match == More /\ Recs[l].exact /\ Refusals(Recs[l]) /\ Good(Recs[l])
Reject == More /\ ~(Recs[l].exact /\ Refusals(Recs[l]) /\ Good(Recs[l])) /\ PrintT("@@REJECT " \o ToJson([line |-> l, known |-> KnownBorder(Recs[l])]))
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
