------------------------------- MODULE FilesMC -------------------------------
EXTENDS Files, Grid, Json
CONSTANTS Prefixes, FieldNames, Epochs, Tokens, MaxOps, Gen
VARIABLES dir, hist, n, last, shape
vars == <<dir, hist, n, last, shape>>
PreMC == {"run", "run_c"}
NamesMC == {"c", "c_1", "1"}
PreGen == {"run", "run_c", "r%d", "sub/x.1"}
NamesGen == {"c", "C", "eta_B", "c_1", "1", "a b", "a,b", "q\"q", "it's", "100%s", ""}
ShapesGen == {<<4, 3, 5>>, <<37, 41>>, <<68, 64>>, <<17, 16, 17>>, <<2, 3>>, <<3, 2>>, <<2, 3, 4>>, <<4, 3, 2>>, <<3, 4, 2>>, <<1, 5>>, <<2, 1, 3>>, <<113, 2>>, <<1, 1, 121>>, <<2, 105, 1>>}
Pick(S) == IF Gen THEN {RandomElement({x \in S : n >= 0})} ELSE S
Op0 == [op |-> "none", pre |-> "", epoch |-> 0, pairs |-> <<>>, bad |-> FALSE, path |-> "", num |-> 0]
Init == dir = {} /\ hist = <<>> /\ n = 0 /\ last = Op0 /\ shape = <<>>
Shape == shape = <<>> /\ \E s \in Pick(IF Gen THEN ShapesGen ELSE {<<2, 3>>}) : shape' = s /\ UNCHANGED <<dir, hist, n, last>>
Do(o) == shape # <<>> /\ n < MaxOps /\ n' = n + 1 /\ last' = o /\ dir' = After(dir, o) /\ hist' = (IF Gen THEN Append(hist, o) ELSE hist) /\ UNCHANGED shape
Pairs == IF Gen THEN LET A == Pick(FieldNames) B == Pick(FieldNames) C == Pick(FieldNames) IN
                     {s \in {<<<<a, t>>>> : a \in A, t \in Pick(Tokens)} \cup {<<<<a, t>>, <<b, u>>>> : a \in A, b \in B, t \in Pick(Tokens), u \in Pick(Tokens)}
                       \cup {<<<<a, t>>, <<b, u>>, <<c, t>>>> : a \in A, b \in B, c \in C, t \in Pick(Tokens), u \in Pick(Tokens)} : \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]}
         ELSE {<<<<a, t>>>> : a \in FieldNames, t \in Tokens} \cup {<<<<a, t>>, <<b, u>>>> : a \in FieldNames, b \in FieldNames, t \in Tokens, u \in Tokens}
Fits(kind, p) == /\ \A i, j \in 1..Len(p) : i # j => p[i][1] # p[j][1]
                 /\ (kind = "u8" => \A i \in 1..Len(p) : p[i][2] # 2)     \* no infinities or NaN in 8 bits
Save(kind) == \E pre \in Pick(Prefixes), e \in Pick(Epochs), p \in Pairs : Fits(kind, p) /\ Do([Op0 EXCEPT !.op = kind, !.pre = pre, !.epoch = e, !.pairs = p])
Bad == \E pre \in Pick(Prefixes), e \in Pick(Epochs) : Do([Op0 EXCEPT !.op = "csv", !.pre = pre, !.epoch = e, !.pairs = <<<<"c", 1>>>>, !.bad = TRUE])
Load == \E f \in {g \in dir : g.kind # "u8"} : Do([Op0 EXCEPT !.op = "load", !.path = f.path])
Idx == \E pre \in Pick(Prefixes), k \in Pick(IF Gen THEN {0, 1, 2, 3, 12, 101} ELSE 0..3), p \in Pairs : Fits("raw", p) /\ Do([Op0 EXCEPT !.op = "index", !.pre = pre, !.num = k, !.pairs = p])
Next == Shape \/ Save("raw") \/ Save("u8") \/ Save("csv") \/ Bad \/ Load \/ Idx
Spec == Init /\ [][Next]_vars
View == <<dir, n, shape>>
(* ---- properties ---- *)
OnePerPath == \A f, g \in dir : f.path = g.path => f = g
(* one prefix: different fields and epochs never share a file *)
NoClash == \A pre \in Prefixes, a, b \in FieldNames, d, e \in Epochs : BinPath(pre, a, d) = BinPath(pre, b, e) => a = b /\ d = e
(* what the last save wrote can be found again *)
Found == last.op \in {"raw", "u8"} => \A i \in 1..Len(last.pairs) : Find(dir, BinPath(last.pre, last.pairs[i][1], last.epoch)).toks = <<last.pairs[i][2]>>
(* the index names the files of the raw writer, epoch by epoch *)
IndexOfWriter == last.op = "index" => \A k \in 1..last.num, i \in 1..Len(last.pairs) :
    LET w == After({}, [Op0 EXCEPT !.op = "raw", !.pre = last.pre, !.epoch = k - 1, !.pairs = last.pairs])
    IN Index(last.pre, Names(last.pairs), last.num)[k][i].path \in {f.path : f \in w}
(* reading the file in row major order with the extents of the index gives every node its position *)
Slowest(p) == IF Len(p) = 2 THEN p ELSE <<p[3], p[1], p[2]>>
RowMajor(e, q) == IF Len(e) = 2 THEN q[1] * e[2] + q[2] ELSE (q[1] * e[2] + q[2]) * e[3] + q[3]
Layout == n = 0 => \A s \in ShapesGen : \A m \in Nodes(s) : RowMajor(Extents(s), Slowest(PosOf(s, m))) = m
Emit == (Gen /\ n = MaxOps) => PrintT("@@F " \o ToJson([ops |-> hist, shape |-> shape]))
=============================================================================
