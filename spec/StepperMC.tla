----------------------------- MODULE StepperMC ------------------------------
(* Execution of the plans field by field, in every order, with the instant   *)
(* that the stored fields and the derived quantities belong to.              *)
EXTENDS Stepper, TLC, Json
CONSTANTS NF, Sequential      \* Sequential: the faulty variant that updates a field before the others are evaluated
VARIABLES scheme, pc, inst, der, done, saw, clock, emitted
vars == <<scheme, pc, inst, der, done, saw, clock, emitted>>
Fields == 1..NF
p == Plan(scheme)
Cur == p[pc]
Init == /\ scheme \in AllSchemes /\ pc = 1 /\ inst = [f \in Fields |-> "y0"] /\ der = "none" /\ done = {} /\ saw = <<>>
        /\ clock = 0 /\ emitted = FALSE
Busy == pc <= Len(p)
(* the fields are set to the register the evaluation is at; derived quantities are recomputed from them *)
Sync == /\ Busy /\ Cur.op = "eval" /\ der # Cur.at /\ done = {}
        /\ \A f \in Fields : inst[f] = Cur.at
        /\ der' = Cur.at /\ UNCHANGED <<scheme, pc, inst, done, saw, clock, emitted>>
EvalField(f) == /\ Busy /\ Cur.op = "eval" /\ der = Cur.at /\ f \notin done
                /\ saw' = Append(saw, [f |-> f, fields |-> {inst[g] : g \in Fields}, der |-> der, at |-> Cur.at])
                /\ done' = done \cup {f}
                /\ inst' = IF Sequential THEN [inst EXCEPT ![f] = "early"] ELSE inst
                /\ UNCHANGED <<scheme, pc, der, clock, emitted>>
NextInstr == /\ Busy /\ Cur.op \in {"eval", "comb", "solve"} /\ done = Fields /\ pc' = pc + 1 /\ done' = {}
             /\ UNCHANGED <<scheme, inst, der, saw, clock, emitted>>
Update(f) == /\ Busy /\ Cur.op \in {"comb", "solve"} /\ f \notin done /\ done' = done \cup {f} /\ inst' = [inst EXCEPT ![f] = Cur.out]
             /\ UNCHANGED <<scheme, pc, der, saw, clock, emitted>>
FilterIt == /\ Busy /\ Cur.op = "filter" /\ \A f \in Fields : inst[f] = Cur.out /\ pc' = pc + 1
            /\ UNCHANGED <<scheme, inst, der, done, saw, clock, emitted>>
(* the new register is accepted only when the evaluation it was built with saw the register itself *)
Accept == /\ Busy /\ Cur.op = "prop" /\ \A f \in Fields : inst[f] = Cur.out /\ der = Cur.out /\ pc' = pc + 1
          /\ UNCHANGED <<scheme, inst, der, done, saw, clock, emitted>>
Finish == /\ ~Busy /\ clock < 1 /\ clock' = clock + 1 /\ emitted' = TRUE
          /\ PrintT("@@PLAN " \o ToJson([scheme |-> scheme, plan |-> p]))
          /\ UNCHANGED <<scheme, pc, inst, der, done, saw>>
Next == Sync \/ (\E f \in Fields : EvalField(f) \/ Update(f)) \/ NextInstr \/ FilterIt \/ Accept \/ Finish
Spec == Init /\ [][Next]_vars

(* all fields of an evaluation, and the derived quantities, belong to one instant *)
Simultaneous == \A i \in 1..Len(saw) : saw[i].fields = {saw[i].at} /\ saw[i].der = saw[i].at
(* every field is evaluated exactly once per evaluation of the plan *)
EveryFieldOnce == clock = 1 => Len(saw) = NF * Len(EvalsOf(p))
RECURSIVE SumW(_)
SumW(ks) == IF ks = <<>> THEN 0 ELSE Head(ks).w + SumW(Tail(ks))
CombOf(reg) == LET c == {i \in 1..Len(p) : p[i].op \in {"comb", "prop"} /\ p[i].out = reg} IN p[CHOOSE i \in c : TRUE]
(* a stage lies at the fraction of the step over which its rate and its implicit part act, and is evaluated at that time *)
StageTimes == \A i \in 1..Len(p) : p[i].op = "eval" => IF p[i].at = "y0" THEN p[i].t = 0
                                                     ELSE SumW(CombOf(p[i].at).ks) = 3 * p[i].t /\ CombOf(p[i].at).a = p[i].t
WholeStep == SumW(CombOf("y1").ks) = 6 /\ CombOf("y1").a = 2
Ends == clock = 1 => \A f \in Fields : inst[f] = "y1"
=============================================================================
