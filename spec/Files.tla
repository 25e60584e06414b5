-------------------------------- MODULE Files --------------------------------
(* The directory that the field writers fill, and the ParaView index over it.*)
(* Contents are tokens: the values of a field at all nodes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* a directory is a set of [path, kind, names, toks]; one entry per path *)
BinPath(pre, name, e) == pre \o "_" \o name \o "_" \o ToString(e) \o ".bin"
CsvPath(pre, e) == pre \o "_" \o ToString(e) \o ".csv"
Put(dir, f) == {g \in dir : g.path # f.path} \cup {f}
Names(pairs) == [i \in 1..Len(pairs) |-> pairs[i][1]]
Toks(pairs) == [i \in 1..Len(pairs) |-> pairs[i][2]]
RECURSIVE PutBins(_, _, _)
PutBins(dir, o, i) == IF i > Len(o.pairs) THEN dir
                      ELSE PutBins(Put(dir, [path |-> BinPath(o.pre, o.pairs[i][1], o.epoch), kind |-> o.op, names |-> <<>>, toks |-> <<o.pairs[i][2]>>]), o, i + 1)
After(dir, o) ==
    CASE o.op \in {"raw", "u8"} -> PutBins(dir, o, 1)
      [] o.op = "csv" -> IF o.bad THEN dir
                         ELSE Put(dir, [path |-> CsvPath(o.pre, o.epoch), kind |-> "csv", names |-> Names(o.pairs), toks |-> Toks(o.pairs)])
      [] OTHER -> dir
Refused(dir, o) == o.op = "csv" /\ o.bad
Find(dir, p) == CHOOSE f \in dir : f.path = p
Result(dir, o) == IF o.op = "load" THEN [names |-> Find(dir, o.path).names, toks |-> Find(dir, o.path).toks] ELSE [names |-> <<>>, toks |-> <<>>]

(* the ParaView index over num epochs: for each epoch and field the file, and the extents with the slowest axis first *)
Index(pre, names, num) == [k \in 1..num |-> [i \in 1..Len(names) |-> [name |-> names[i], path |-> BinPath(pre, names[i], k - 1)]]]
Extents(shape) == IF Len(shape) = 2 THEN shape ELSE <<shape[3], shape[1], shape[2]>>
=============================================================================
