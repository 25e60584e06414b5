------------------------------- MODULE GridMC -------------------------------
(* Model checking of the grid specification itself: every shape up to        *)
(* MaxSide, every node, and a product iterator stepped through all its       *)
(* states.                                                                    *)
EXTENDS Grid
CONSTANTS MaxSide2, MaxSide3
Shapes == [1..2 -> 1..MaxSide2] \cup [1..3 -> 1..MaxSide3]
VARIABLES shape, node, cur, done
vars == <<shape, node, cur, done>>
Init == /\ shape \in Shapes
        /\ node = 0
        /\ cur = [a \in 1..Len(shape) |-> 0]
        /\ done = FALSE
(* the product iterator: the successor in lexicographic order *)
Last == [a \in 1..Len(shape) |-> shape[a] - 1]
Succ(p) == LET a == CHOOSE b \in 1..Len(shape) : p[b] < shape[b] - 1 /\ \A c \in b+1..Len(shape) : p[c] = shape[c] - 1
           IN [c \in 1..Len(shape) |-> IF c < a THEN p[c] ELSE IF c = a THEN p[c] + 1 ELSE 0]
Next == /\ ~done
        /\ node' = node + 1
        /\ IF cur = Last THEN cur' = cur /\ done' = TRUE ELSE cur' = Succ(cur) /\ done' = FALSE
        /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars
Numbering == ~done => /\ PosOf(shape, node) \in Positions(shape)
                      /\ Node(shape, PosOf(shape, node)) = node
ProductOrder == /\ done => node = NumNodes(shape)
                /\ ~done => node < NumNodes(shape)
Frequencies == ~done =>
    /\ \A a \in 1..Len(shape) : InBand(FreqNum(shape, node)[a], shape[a])
    /\ LET c == Conjugate(shape, node) IN
        /\ Conjugate(shape, c) = node
        /\ SameFreq(shape, FreqNum(shape, c), [a \in 1..Len(shape) |-> -FreqNum(shape, node)[a]])
Increasing == [][done' \/ LexLess(cur, cur')]_vars
WrapIdempotent == ~done => WrapPos(shape, [a \in 1..Len(shape) |-> PosOf(shape, node)[a] - 2 * shape[a]]) = PosOf(shape, node)
DistanceSymmetric == ~done => \A m \in Nodes(shape) : DistSq(shape, node, m) = DistSq(shape, m, node)
                                                      /\ (DistSq(shape, node, m) = 0 <=> m = node)
=============================================================================
