------------------------------- MODULE Solver --------------------------------
(* One solver run: which evaluations, notifications, callbacks and monitor    *)
(* records happen, when, at which time and on which values of the fields.     *)
(*                                                                            *)
(* Time is counted in half steps. The values of the fields are identified by  *)
(* an instant: 10 n is the state after n steps, 10 n + k the intermediate     *)
(* state of stage k of the step that starts there.                            *)
(*                                                                            *)
(* A configuration c has the scheme, the names of the registered terms, the   *)
(* terms with an explicit (rates) or implicit (owns) part that an equation    *)
(* uses, the observable derived quantities (calcs), the sources (srcs), the   *)
(* numbers of callbacks and monitors, the start epoch and the start step.     *)
EXTENDS Stepper, TLC

StageOf(reg) == CASE reg = "y0" -> 0 [] reg = "s2" -> 2 [] reg = "s3" -> 3 [] reg = "s4" -> 4
Evals(c) == IF c.scheme \in Schemes THEN EvalsOf(Plan(c.scheme)) ELSE <<>>
(* c.check: the aspects that are compared: evalinst (states of evaluations), evaltime, noteinst (states seen by  *)
(* notifications, callbacks and monitors), notetime, calc (derived quantities).                                 *)
Known(c) == c.scheme \in Schemes      \* other schemes: evaluations at any state within the step
Exact(c) == Known(c) /\ "evalinst" \in c.check
NumStages(c) == IF Exact(c) THEN Len(Evals(c)) ELSE 1
TimesOf(c) == IF Known(c) THEN {Evals(c)[i].t : i \in 1..Len(Evals(c))} ELSE {0}

Fresh(c) == [n |-> c.start, ph |-> "init", kind |-> "none", ep |-> 0, eps |-> 0, s |-> 0, steps |-> 0, k |-> 1,
             cset |-> {}, rset |-> {}, note |-> {}, cbn |-> 0, mset |-> {}]
Inst(c, st) == 10 * st.n + (IF st.ph = "stage" /\ Exact(c) THEN StageOf(Evals(c)[st.k].at) ELSE 0)
TimeNow(c, st) == 2 * st.n + (IF st.ph = "stage" /\ Exact(c) THEN Evals(c)[st.k].t ELSE 0)

(* ---------------- silent progress ---------------- *)
Timed(c) == Known(c) /\ "evaltime" \in c.check
Mark(c, st, e) == IF ~Exact(c) /\ Timed(c) THEN <<e.name, e.t - 2 * st.n>> ELSE <<e.name, 0>>
StageDone(c, st) == (c.rates \cup c.srcs) \X (IF ~Exact(c) /\ Timed(c) THEN TimesOf(c) ELSE {0}) \subseteq st.rset
EpochStart(st) == IF st.steps > 0 THEN [st EXCEPT !.ph = "stage", !.s = 0, !.k = 1, !.cset = {}, !.rset = {}]
                  ELSE [st EXCEPT !.ph = IF st.kind = "solve" THEN "epoch" ELSE "finished", !.s = 0, !.cbn = 0, !.mset = {}]
Complete(c, st) ==
    CASE st.ph = "stage" -> StageDone(c, st)
      [] st.ph = "after" -> st.note = IF st.kind = "direct" THEN {"return"} ELSE c.terms
      [] st.ph = "epoch" -> st.cbn = c.ncb /\ st.mset = 1..c.nmon
      [] OTHER -> FALSE
Adv(c, st) ==
    CASE st.ph = "stage" -> IF st.k < NumStages(c) THEN [st EXCEPT !.k = @ + 1, !.cset = {}, !.rset = {}]
                            ELSE [st EXCEPT !.ph = "after", !.n = @ + 1, !.s = @ + 1, !.note = {}, !.cset = {}, !.rset = {}]
      [] st.ph = "after" -> IF st.s < st.steps THEN [st EXCEPT !.ph = "stage", !.k = 1]
                            ELSE IF st.kind = "solve" THEN [st EXCEPT !.ph = "epoch", !.cbn = 0, !.mset = {}]
                            ELSE [st EXCEPT !.ph = "finished"]
      [] st.ph = "epoch" -> IF st.ep + 1 < st.eps THEN EpochStart([st EXCEPT !.ep = @ + 1])
                            ELSE [st EXCEPT !.ph = "finished"]

(* ---------------- events ---------------- *)
(* begin: kind (solve, propagate, direct: steps of the stepper itself, each followed by a tick and no notifications; filter: a filter that   *)
(* keeps everything is set), eps, steps; calc: name, inst; rate/src: name, t, inst, der; own: name, t;                *)
(* note: name, t, inst; cb: i, epoch, t, inst; mon: i, inst; end: t, inst                                  *)
NoteInst(c, st, e) == Known(c) /\ "noteinst" \in c.check => e.inst = Inst(c, st)
NoteTime(c, st, e) == "notetime" \in c.check => e.t = 2 * st.n
CalcOk(c, st, e) == Exact(c) => e.name \notin st.cset /\ e.inst = Inst(c, st)
TimeOk(c, st, e) == Timed(c) => IF Exact(c) THEN e.t = TimeNow(c, st)
                                ELSE /\ e.t - 2 * st.n \in TimesOf(c)
                                     /\ \A x \in TimesOf(c) : IF x < e.t - 2 * st.n THEN <<e.name, x>> \in st.rset
                                                             ELSE x > e.t - 2 * st.n => <<e.name, x>> \notin st.rset
Within(c, st, e) == "evaltime" \in c.check => e.t >= 2 * st.n /\ e.t <= 2 * st.n + 2
Enabled(c, st, e) ==
    CASE e.ev = "begin" -> st.ph \in {"init", "idle"}
      [] e.ev = "calc" -> "calc" \notin c.check \/ st.ph = "init" \/ (st.ph = "stage" /\ CalcOk(c, st, e))
      [] e.ev = "rate" -> /\ st.ph = "stage" /\ TimeOk(c, st, e) /\ Within(c, st, e)
                          /\ (Exact(c) => e.inst = Inst(c, st))
                          /\ (Exact(c) /\ "calc" \in c.check => e.der = Inst(c, st) /\ c.calcs \subseteq st.cset)
      [] e.ev = "src" -> st.ph = "stage" /\ TimeOk(c, st, e) /\ Within(c, st, e) /\ (Exact(c) => e.inst = Inst(c, st))
      [] e.ev = "own" -> st.ph = "stage" /\ Within(c, st, e) /\ (c.scheme = "euler" /\ Timed(c) => e.t = 2 * st.n)
      [] e.ev = "tick" -> st.ph = "after" /\ st.kind = "direct" /\ st.note = {} /\ NoteTime(c, st, e) /\ NoteInst(c, st, e)
      [] e.ev = "note" -> st.ph = "after" /\ st.kind # "direct" /\ e.name \in c.terms /\ e.name \notin st.note /\ NoteTime(c, st, e) /\ NoteInst(c, st, e)
      [] e.ev = "cb" -> st.ph = "epoch" /\ e.i = st.cbn + 1 /\ e.i <= c.ncb /\ st.mset = {} /\ e.epoch = c.epoch + st.ep
                        /\ NoteTime(c, st, e) /\ NoteInst(c, st, e)
      [] e.ev = "mon" -> st.ph = "epoch" /\ st.cbn = c.ncb /\ e.i \in 1..c.nmon /\ e.i \notin st.mset /\ NoteInst(c, st, e)
      [] e.ev = "end" -> st.ph = "finished" /\ NoteTime(c, st, e) /\ NoteInst(c, st, e)
      [] OTHER -> FALSE
Do(c, st, e) ==
    CASE e.ev = "begin" -> LET b == [st EXCEPT !.kind = e.kind, !.eps = e.eps, !.steps = e.steps, !.ep = 0] IN
                           IF e.eps = 0 THEN [b EXCEPT !.ph = "finished"] ELSE EpochStart(b)
      [] e.ev = "calc" -> IF "calc" \in c.check THEN [st EXCEPT !.cset = @ \cup {e.name}] ELSE st
      [] e.ev \in {"rate", "src"} -> [st EXCEPT !.rset = @ \cup {Mark(c, st, e)}]
      [] e.ev = "own" -> st
      [] e.ev = "note" -> [st EXCEPT !.note = @ \cup {e.name}]
      [] e.ev = "tick" -> [st EXCEPT !.note = {"return"}]
      [] e.ev = "cb" -> [st EXCEPT !.cbn = @ + 1]
      [] e.ev = "mon" -> [st EXCEPT !.mset = @ \cup {e.i}]
      [] e.ev = "end" -> [st EXCEPT !.ph = "idle"]
(* the state after an event, with the silent progress before it; "bad" when the event is not allowed *)
RECURSIVE Take(_, _, _)
Take(c, st, e) == IF Enabled(c, st, e) THEN Do(c, st, e)
                  ELSE IF Complete(c, st) THEN Take(c, Adv(c, st), e)
                  ELSE [ph |-> "bad", at |-> st]
=============================================================================
