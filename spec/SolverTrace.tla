----------------------------- MODULE SolverTrace -----------------------------
(* Accepts or rejects recordings of the real solver. Every run starts with a  *)
(* "reset" line holding its configuration.                                    *)
EXTENDS Solver, Json
Recs == ndJsonDeserialize("trace.ndjson")
CONSTANT Aspects
VARIABLES l, c, st, live
vars == <<l, c, st, live>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Conf(r) == [scheme |-> r.scheme, terms |-> Rng(r.terms), rates |-> Rng(r.rates), owns |-> Rng(r.owns), calcs |-> Rng(r.calcs),
            srcs |-> Rng(r.srcs), ncb |-> r.ncb, nmon |-> r.nmon, epoch |-> r.epoch, start |-> r.start, check |-> Aspects]
None == [scheme |-> "euler", terms |-> {}, rates |-> {}, owns |-> {}, calcs |-> {}, srcs |-> {}, ncb |-> 0, nmon |-> 0, epoch |-> 0, start |-> 0, check |-> Aspects]
Init == l = 1 /\ c = None /\ st = Fresh(None) /\ live = FALSE
More == l <= Len(Recs) /\ l' = l + 1
Reset == More /\ Recs[l].ev = "reset" /\ c' = Conf(Recs[l]) /\ st' = Fresh(Conf(Recs[l])) /\ live' = TRUE
Event == /\ More /\ Recs[l].ev # "reset"
         /\ IF ~live THEN UNCHANGED <<c, st, live>>
            ELSE LET r == Take(c, st, Recs[l]) IN
                 IF r.ph # "bad" THEN st' = r /\ UNCHANGED <<c, live>>
                 ELSE /\ PrintT("@@REJECT " \o ToJson([line |-> l, state |-> r.at, inst |-> Inst(c, r.at)]))
                      /\ live' = FALSE /\ UNCHANGED <<c, st>>
Next == Reset \/ Event
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
