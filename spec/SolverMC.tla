------------------------------ MODULE SolverMC -------------------------------
(* All runs of a small solver, with counters kept independently of the        *)
(* solver's own state; random scenarios for the real solver.                  *)
EXTENDS Solver, Json, Randomization
CONSTANTS Gen, MaxOps, MaxSteps
AllAspects == {"evalinst", "evaltime", "noteinst", "notetime", "calc"}
CONSTANT Aspects
VARIABLES c, st, ops, hist, q
vars == <<c, st, ops, hist, q>>
(* hist: counters by what was seen *)
Zero == [steps |-> 0, asked |-> 0, direct |-> 0, eps |-> 0, notes |-> 0, cbs |-> 0, mons |-> 0, calcs |-> 0, rates |-> 0, order |-> TRUE, last |-> 0]
Pick(S) == IF Gen THEN RandomSubset(1, {x \in S : q >= 0}) ELSE S
Configs == [scheme : IF Gen THEN {"euler", "rk4", "implicit", "sdd"} ELSE {"euler", "rk4", "other"}, terms : IF Gen THEN {{}, {"a"}, {"a", "b"}} ELSE {{}, {"a", "b"}},
            ncb : IF Gen THEN {0, 1, 2, 3, 6} ELSE {0, 2}, nmon : IF Gen THEN {0, 1, 2, 3, 7} ELSE {1},
            start : IF Gen THEN {0, 3, 17, 996, 65533} ELSE {3}, epoch : IF Gen THEN {0, 4, -2, 1023} ELSE {4}, nsrc : IF Gen THEN {0, 1} ELSE {0}]
Full(k) == [scheme |-> k.scheme, terms |-> k.terms, rates |-> k.terms, owns |-> {}, calcs |-> IF k.terms = {} THEN {} ELSE {"d"},
            srcs |-> IF k.nsrc = 1 THEN {"s"} ELSE {}, ncb |-> k.ncb, nmon |-> k.nmon, epoch |-> k.epoch, start |-> k.start, check |-> Aspects]
Init == /\ q = 0 /\ ops = <<>> /\ hist = Zero
        /\ \E k \in (IF Gen THEN {CHOOSE x \in Configs : TRUE} ELSE Configs) : c = Full(k)
        /\ st = IF Gen THEN [Fresh(c) EXCEPT !.ph = "config"] ELSE Fresh(c)
Configure == /\ st.ph = "config" /\ \E k \in Pick(Configs) : c' = Full(k) /\ st' = Fresh(Full(k))
             /\ q' = q + 1 /\ UNCHANGED <<ops, hist>>
Quiet == st.ph \in {"init", "idle"}
Seen(e) == IF e.ev = "begin" THEN [hist EXCEPT !.asked = @ + e.eps * e.steps, !.direct = @ + (IF e.kind = "direct" THEN e.steps ELSE 0), !.eps = @ + (IF e.kind = "solve" THEN e.eps ELSE 0)]
           ELSE IF e.ev = "note" THEN [hist EXCEPT !.notes = @ + 1, !.order = @ /\ e.t >= hist.last, !.last = e.t]
           ELSE IF e.ev = "cb" THEN [hist EXCEPT !.cbs = @ + 1, !.order = @ /\ e.t >= hist.last, !.last = e.t]
           ELSE IF e.ev = "mon" THEN [hist EXCEPT !.mons = @ + 1]
           ELSE IF e.ev = "calc" THEN [hist EXCEPT !.calcs = @ + 1]
           ELSE IF e.ev = "rate" /\ Mark(c, st, e) \notin st.rset THEN [hist EXCEPT !.rates = @ + 1, !.order = @ /\ e.t >= hist.last, !.last = e.t] ELSE hist
Fire(e) == Enabled(c, st, e) /\ st' = Do(c, st, e) /\ hist' = Seen(e) /\ q' = q + 1 /\ UNCHANGED c
Begin == /\ Quiet /\ Len(ops) < MaxOps
         /\ \E kind \in Pick({"solve", "propagate", "direct"} \cup (IF c.scheme = "sdd" THEN {} ELSE {"filter"})), e \in Pick(IF Gen THEN {0, 1, 2, 6} ELSE 0..2), s \in Pick(0..MaxSteps) :
              LET b == [ev |-> "begin", kind |-> kind, eps |-> IF kind = "solve" THEN e ELSE 1, steps |-> IF kind = "filter" THEN 0 ELSE s] IN
              /\ (Gen => st.n - c.start + b.eps * b.steps <= 7)
              /\ Fire(b) /\ ops' = Append(ops, b)
Internal == /\ Complete(c, st) /\ st' = Adv(c, st) /\ q' = q + 1 /\ UNCHANGED <<c, ops>>
            /\ hist' = IF Adv(c, st).n > st.n THEN [hist EXCEPT !.steps = @ + 1] ELSE hist
Events == \E e \in {[ev |-> "calc", name |-> "d", inst |-> Inst(c, st)]}
                \cup {[ev |-> "rate", name |-> x, t |-> 2 * st.n + h, inst |-> Inst(c, st), der |-> Inst(c, st)] : x \in c.rates, h \in 0..2}
                \cup {[ev |-> "src", name |-> x, t |-> 2 * st.n + h, inst |-> Inst(c, st)] : x \in c.srcs, h \in 0..2}
                \cup {[ev |-> "note", name |-> x, t |-> 2 * st.n, inst |-> Inst(c, st)] : x \in c.terms}
                \cup {[ev |-> "tick", t |-> 2 * st.n, inst |-> Inst(c, st)]}
                \cup {[ev |-> "cb", i |-> i, epoch |-> c.epoch + x, t |-> 2 * st.n, inst |-> Inst(c, st)] : i \in 1..c.ncb, x \in 0..2}
                \cup {[ev |-> "mon", i |-> i, inst |-> Inst(c, st)] : i \in 1..c.nmon}
                \cup {[ev |-> "end", t |-> 2 * st.n, inst |-> Inst(c, st)]} :
            /\ (e.ev = "rate" => Mark(c, st, e) \notin st.rset) /\ (e.ev = "src" => Mark(c, st, e) \notin st.rset)
            /\ (e.ev = "calc" => ("calc" \in c.check /\ c.calcs # {} /\ st.ph # "init" /\ (~Exact(c) => "d" \notin st.cset)))
            /\ Fire(e) /\ UNCHANGED ops
Stop == Gen /\ Quiet /\ Len(ops) > 0 /\ (Len(ops) = MaxOps \/ RandomElement(1..3) = 1) /\ ~hist.order = FALSE /\ st.ph # "stopped"
        /\ st' = [st EXCEPT !.ph = "stopped"] /\ q' = q + 1 /\ UNCHANGED <<c, ops, hist>>
Next == Configure \/ Begin \/ Internal \/ Events \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Events)
View == <<c, st, ops, hist>>

(* ---------------- properties ---------------- *)
Clock == st.n = c.start + hist.steps
Stages == NumStages(c)
Evaluations == IF Exact(c) THEN Stages ELSE IF Timed(c) THEN Cardinality(TimesOf(c)) ELSE 1
(* whenever the solver has returned: exactly the steps, notifications, callbacks and records that were asked for *)
Exactly == Quiet => /\ hist.steps = hist.asked
                    /\ hist.notes = (hist.asked - hist.direct) * Cardinality(c.terms)
                    /\ hist.cbs = hist.eps * c.ncb /\ hist.mons = hist.eps * c.nmon
                    /\ (Timed(c) \/ Exact(c) \/ Stages = 1) => hist.rates = hist.asked * Evaluations * Cardinality(c.rates)
(* derived quantities are recomputed exactly once per evaluation of the right-hand sides *)
OncePerStage == (Quiet /\ Exact(c) /\ "calc" \in c.check /\ c.calcs # {}) => hist.calcs = hist.asked * Stages
(* times never go backwards, and nothing is reported before its step is complete *)
Forward == Exact(c) /\ Timed(c) => hist.order
NoEarly == /\ hist.notes <= (hist.steps + 0) * Cardinality(c.terms)
           /\ hist.cbs <= hist.eps * c.ncb
           /\ (st.ph = "epoch" /\ st.cbn > 0) => st.s = st.steps
Returns == (st.ph \in {"stage", "after", "epoch", "finished"}) ~> (st.ph = "idle")
Emit == st.ph = "stopped" => PrintT("@@S " \o ToJson([c |-> c, ops |-> ops]))
=============================================================================
