------------------------------ MODULE FilesTrace -----------------------------
(* Accepts or rejects recordings of the writers, the readers and the index.  *)
EXTENDS Files, Grid, Json
Recs == ndJsonDeserialize("trace.ndjson")
VARIABLES l, dir, live
vars == <<l, dir, live>>
Seen(o) == {[path |-> f.path, kind |-> f.kind, names |-> f.names, toks |-> f.toks] : f \in Range(o)}
CsvPositions(shape) == [i \in 1..NumNodes(shape) |-> Pad3(PosOf(shape, i - 1), 0)]
Good(e) ==
    /\ e.refused = Refused(dir, e.args)
    /\ Seen(e.dir) = After(dir, e.args) /\ Len(e.dir) = Cardinality(After(dir, e.args))
    /\ \A i \in 1..Len(e.dir) : e.dir[i].kind = "csv" => e.dir[i].pos = CsvPositions(e.shape)
    /\ (e.args.op = "load" => e.result = Result(dir, e.args))
    /\ (e.args.op = "index" => /\ e.index = Index(e.args.pre, Names(e.args.pairs), e.args.num)
                               /\ \A i \in 1..Len(e.dims) : e.dims[i] = Extents(e.shape)
                               /\ Len(e.dims) = 1 + e.args.num * Len(e.args.pairs)
                               /\ \A i \in 1..Len(e.formats) : e.formats[i] = <<"Float", "Big", "8", "Binary">>)
Init == l = 1 /\ dir = {} /\ live = FALSE
More == l <= Len(Recs) /\ l' = l + 1
Reset == More /\ Recs[l].ev = "reset" /\ dir' = {} /\ live' = TRUE
Step == /\ More /\ Recs[l].ev = "op" /\ live
        /\ IF Good(Recs[l]) THEN dir' = After(dir, Recs[l].args) /\ live' = TRUE
           ELSE /\ PrintT("@@REJECT " \o ToJson([line |-> l, expected |-> After(dir, Recs[l].args), result |-> Result(dir, Recs[l].args)]))
                /\ live' = FALSE /\ UNCHANGED dir
Skip == More /\ Recs[l].ev = "op" /\ ~live /\ UNCHANGED <<dir, live>>
Next == Reset \/ Step \/ Skip
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
