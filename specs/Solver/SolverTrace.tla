---------------------------- MODULE SolverTrace ----------------------------
(* Recorded iterations of one or several solution drivers, each of which has to follow its own state only. *)
EXTENDS Solver, VF
VARIABLES st, t, i
vars == <<st, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ Same2("set-up", Traces[t].s[1].ok, TRUE)
         /\ st = [k \in 1..Len(Traces[t].c.s) |-> New]
Front(q, n) == IF Len(q) < n THEN q ELSE SubSeq(q, 1, n)
Judge(e, c, w) ==
  /\ Same2("status", e.st, w.out)
  /\ Same2("requests", IF w.out = "fail" THEN Front(e.ev, Len(w.ev)) ELSE e.ev, w.ev)
  /\ Same2("step completed", e.first, w.first)
  /\ (w.out # "fail" => Same2("iterations", e.iter, w.iter) /\ Same2("displacements", e.d, w.d) /\ Same2("reference norm", e.ref, w.ref))
After(e, w) == [Rest(w) EXCEPT !.d = IF w.out = "fail" THEN e.d ELSE @]
TNext == /\ i < Len(Traces[t].s) /\ t' = t
         /\ LET e == Ev
                c == C.s[e.k]
                w == TLCEval(IF e.op = "ste" THEN SolveStep(c, st[e.k], e.sub, e.script, e.fk, e.div) ELSE SolveIteration(c, st[e.k], e.it0, e.sub, e.script, e.fk))
            IN IF w.vague THEN st' = st /\ i' = Len(Traces[t].s)
               ELSE Judge(e, c, w) /\ st' = TLCEval([st EXCEPT ![e.k] = After(e, w)]) /\ i' = i + 1
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
