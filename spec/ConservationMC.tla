--------------------------- MODULE ConservationMC ---------------------------
(* Any number of steps of any scheme, one field that is conserved and one    *)
(* that is not, with every mean rate the second can have at every stage.     *)
EXTENDS Conservation, TLC
CONSTANTS MaxSteps, Values
Vals == {-2, -1, 0, 1}
VARIABLES scheme, n, kept, free, same, total
vars == <<scheme, n, kept, free, same, total>>
Kept == << [kind |-> "rate", l |-> 1], [kind |-> "own", l |-> 2], [kind |-> "noise", l |-> 1] >>
Free == << [kind |-> "rate", l |-> 0], [kind |-> "rate", l |-> 1] >>
Mean(meaning, v) == IF Conserved(meaning) THEN 0 ELSE v       \* what reaches the mode
Init == scheme \in AllSchemes /\ n = 0 /\ kept = 0 /\ free = 0 /\ same = TRUE /\ total = 0
Step == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED scheme
        /\ LET p == Plan(scheme) IN \E r \in [Rates(p) -> Values] :
             /\ kept' = MeanAfter(p, kept, [k \in Rates(p) |-> Mean(Kept, r[k])])
             /\ free' = MeanAfter(p, free, [k \in Rates(p) |-> Mean(Free, r[k])])
             /\ same' = (same /\ \A a, b \in Rates(p) : r[a] = r[b])
             /\ total' = IF same' THEN total + 6 * r[CHOOSE k \in Rates(p) : TRUE] ELSE 0
Spec == Init /\ [][Step]_vars
(* a conserved field never changes its mean, whatever the rates are *)
KeepsMean == kept = 0
(* a rate that is the same at all stages of a step changes the mean by exactly its own mean times dt *)
OwnMean == same => free = total
=============================================================================
