----------------------------- MODULE Multiplier -----------------------------
(* The volume-conserving Lagrange multiplier. All numbers are integers: the  *)
(* multiplier in units of 1/Unit, the time step as 1/Inv. Totals of the      *)
(* field and of the indicator are given at every notification.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Gen, MaxOps
VARIABLES mult, cur, first, inv, start, last, hist, n
vars == <<mult, cur, first, inv, start, last, hist, n>>
Unit == 1024
Totals == -6..6
Inds == {1, -2, 4, 8, -16}
Pick(S) == IF Gen THEN {RandomElement({x \in S : n >= 0})} ELSE S
Init == /\ mult \in (IF Gen THEN {0} ELSE {0, 3 * Unit}) /\ cur = 0 /\ first = TRUE /\ inv = 0 /\ start = 0 /\ last = 0 /\ hist = <<>> /\ n = 0
Configure == /\ inv = 0 /\ inv' \in Pick({1, 2, 4, 8}) /\ (IF Gen THEN mult' \in Pick({0, 512, -1024, 2048}) ELSE mult' = mult) /\ n' = n + 1
             /\ UNCHANGED <<cur, first, start, last, hist>>
Change(total, ind) == ((total - cur) * inv * Unit) \div ind      \* exact: ind divides Unit
Notify == /\ inv > 0 /\ n <= MaxOps
          /\ \E total \in Pick(Totals), ind \in Pick(Inds) :
               /\ (~Gen => last \in {0, ind})                        \* model checking: one indicator total, so that the changes add up
               /\ mult' = IF first THEN mult ELSE mult - Change(total, ind)
               /\ cur' = total /\ first' = FALSE /\ last' = ind
               /\ start' = IF first THEN total ELSE start
               /\ hist' = Append(hist, [total |-> total, ind |-> ind, mult |-> mult'])
          /\ n' = n + 1 /\ UNCHANGED inv
Next == Configure \/ Notify
Spec == Init /\ [][Next]_vars
View == <<mult, cur, first, inv, start, last, n>>
(* the first notification only sets the reference *)
FirstKeeps == [][ (first /\ inv > 0) => mult' = mult ]_vars
(* with a constant indicator only the net change since the first notification counts *)
Telescopes == (~Gen /\ ~first) => mult \in {m0 - ((cur - start) * inv * Unit) \div last : m0 \in {0, 3 * Unit}}
(* a field that does not change leaves the multiplier alone *)
Still == [][ (~first /\ cur' = cur) => mult' = mult ]_vars
Emit == (Gen /\ n > MaxOps) => PrintT("@@M " \o ToJson([inv |-> inv, unit |-> Unit, m0 |-> IF hist = <<>> THEN 0 ELSE hist[1].mult, hist |-> hist]))
=============================================================================
