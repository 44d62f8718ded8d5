------------------------------ MODULE SimSolver ------------------------------
(* The simulation drivers: stationary, transient, transient with mesh refinement in time slabs, and internally adaptive. *)
(* The state of a driver is a record d; it is at the point d.pc, where it calls the solver (Expect), which succeeds or *)
(* not (After).  Between the calls it advances the time and decides what is due (Settle). *)
(* A run may be interrupted at any call. The restart file survives, and another run may start from a level in it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TS == INSTANCE TimeStep WITH c <- 0, s <- 0, saved <- 0, open <- 0

Scheme(c) == [start |-> c.start, stop |-> c.stop, segs |-> c.segs, dt0 |-> c.dt0, dtMin |-> 64, dtMax |-> 64, f1h |-> 3, f2d |-> 4,
              maxStep |-> c.maxStep, maxCFL |-> 0, nInit |-> 0]
Multi(c, tp) == c.start + tp.dt < TS!StopTime(Scheme(c))
Finished(c, tp) == (c.maxStep > 0 /\ tp.step >= c.maxStep) \/ tp.t >= TS!StopTime(Scheme(c))
Stepping(c) == c.kind \in {"sol", "ts"}
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* the solution depends on all steps
Solve(u, step, mesh) == (3 * u + step + mesh) % 997

\* save, rst: the strides of the results and the restart states (0: none)
New(c, save, rst, rbad) ==
  [pc |-> "read", tp |-> TS!Initial(Scheme(c)), u |-> 1, mesh |-> 1, nref |-> 0, sv |-> 0, save |-> save, rst |-> rst, rbad |-> rbad,
   elev |-> -1, est |-> 0, elast |-> -1, rlev |-> -1, rlast |-> 0, null |-> FALSE, ret |-> -1, file |-> FALSE,
   geo |-> FALSE, back |-> "", code |-> 0, nomesh |-> FALSE, sol |-> "", none |-> "",
   tran |-> 0, last |-> 1, refd |-> 0, ip |-> 0, i |-> 0, it |-> 1, pre |-> c.pre]
\* the driver takes over a state: the results and restart states continue at the levels they had
Take(c, d, r) == [d EXCEPT !.tp = TS!Restored(Scheme(c), r.tp), !.u = r.u, !.rlev = r.lev - 1, !.est = r.exp, !.elev = r.exp - 1]

Exports(d) == d.save > 0
\* the results are due; without time stepping always
ExpDue(c, d) == ~Stepping(c) \/ d.tp.step <= 0 \/ d.tp.step >= Max(0, d.elast) + d.save
AdiDue(d) == d.it <= 0 \/ d.it >= Max(0, d.elast) + d.save
RstDue(d) == d.rst > 0 /\ d.tp.step >= d.rlast + d.rst
End(d, r) == [d EXCEPT !.pc = "end", !.ret = r]
\* save a state, then go on at the given point; code: the status if that fails
SaveState(d, newmesh, res, name, back, code) ==
  [d EXCEPT !.pc = IF newmesh THEN "model" ELSE IF res THEN "save" ELSE back, !.geo = res, !.back = back, !.code = code, !.file = name]
Advance(d, sol, none) == [d EXCEPT !.pc = "adv", !.sol = sol, !.none = none]

RECURSIVE Settle(_, _)
Settle(c, d) ==
  CASE d.pc = "start" ->
         Settle(c, IF c.kind = "stat" THEN SaveState(d, TRUE, FALSE, TRUE, "solve", 1)
                   ELSE IF c.kind = "adi" THEN [d EXCEPT !.pc = "init"]
                   ELSE IF c.kind = "sol" THEN SaveState(d, TRUE, Multi(c, d.tp), TRUE, "loop", 2)
                   ELSE IF d.tp.step = 0 /\ c.mxr > d.pre THEN [d EXCEPT !.pc = "irefine"]
                   ELSE [d EXCEPT !.pc = "first"])
    [] d.pc = "first" -> Settle(c, SaveState(d, TRUE, d.pre < 1, TRUE, "before", 2))
    \* all steps are solved and saved
    [] d.pc = "loop" -> Settle(c, [Advance(d, "solved", "done") EXCEPT !.code = 4])
    [] d.pc = "solved" -> Settle(c, SaveState(d, FALSE, TRUE, FALSE, "loop", 4))
    [] d.pc = "done" -> End(d, 0)
    \* time slabs: first without refinement
    [] d.pc = "before" -> Settle(c, IF d.tp.t < c.aStart THEN Advance(d, "beforeSave", "main") ELSE [d EXCEPT !.pc = "main"])
    [] d.pc = "beforeSave" -> Settle(c, SaveState(d, FALSE, TRUE, FALSE, "before", 2))
    [] d.pc = "main" -> IF Finished(c, d.tp) THEN End(d, 0) ELSE [d EXCEPT !.pc = "sstate"]
    \* a number of predictions, until the mesh is fine enough
    [] d.pc = "pred" -> Settle(c, IF d.ip < Abs(c.mxp) /\ d.last > 0
                                  THEN IF d.ip > 0 THEN [d EXCEPT !.last = 0, !.tp = d.tran, !.pc = "sstate2"]
                                       ELSE [d EXCEPT !.last = 0, !.i = 0, !.pc = "predStep"]
                                  ELSE [d EXCEPT !.pc = "after"])
    [] d.pc = "predStep" -> Settle(c, IF d.i < c.prd THEN Advance([d EXCEPT !.i = @ + 1], "predStep", "predDone") ELSE [d EXCEPT !.pc = "predDone"])
    [] d.pc = "predDone" -> Settle(c, IF Finished(c, d.tp) THEN [d EXCEPT !.pc = "after"] ELSE [d EXCEPT !.pc = "adapt"])
    [] d.pc = "after" -> Settle(c, IF d.last < 0 THEN End(d, 4)
                                   ELSE IF d.last = 0 /\ c.mxp > 0 THEN SaveState(d, d.refd > 0, TRUE, FALSE, "main", 2)
                                   ELSE [d EXCEPT !.tp = d.tran, !.pc = IF d.last > 0 THEN "stagon" ELSE "rstate"])
    \* then some steps on that mesh
    [] d.pc = "fwd" -> Settle(c, IF d.i < c.fwd THEN Advance([d EXCEPT !.i = @ + 1], "fwdSave", "main") ELSE [d EXCEPT !.pc = "main"])
    [] d.pc = "fwdSave" -> Settle(c, SaveState(d, d.i <= 1, TRUE, FALSE, "fwd", 2))
    \* internally adaptive
    [] d.pc = "adiSaved" -> Settle(c, [d EXCEPT !.it = @ + 1, !.pc = "adapti"])
    [] d.pc = "adv" -> IF TS!CanStep(Scheme(c), d.tp) THEN [d EXCEPT !.tp = TS!Stepped(Scheme(c), @), !.pc = "advance"]
                       ELSE Settle(c, [d EXCEPT !.tp = TS!Predict(Scheme(c), @), !.pc = d.none])
    [] d.pc = "exp" -> IF Exports(d) /\ (IF c.kind = "adi" THEN AdiDue(d) ELSE ExpDue(c, d))
                       THEN IF d.null THEN End(d, IF c.kind = "stat" THEN 5 ELSE d.code)
                            ELSE [d EXCEPT !.pc = "export", !.elev = @ + 1, !.elast = IF c.kind = "adi" THEN d.it ELSE IF Stepping(c) THEN d.tp.step ELSE @]
                       ELSE Settle(c, [d EXCEPT !.pc = "rst"])
    [] d.pc = "rst" -> IF Stepping(c) /\ RstDue(d) THEN [d EXCEPT !.pc = "ser", !.rlast = d.tp.step] ELSE Settle(c, [d EXCEPT !.pc = d.back])
    [] OTHER -> d

At(d) == <<d.tp.step, d.tp.t, d.tp.dt>>
Expect(c, d) ==
  CASE d.pc = "model" -> <<"model", IF d.file THEN 1 ELSE 0, d.mesh>>
    [] d.pc = "save" -> <<"save">> \o (IF c.kind = "stat" THEN <<0, 0, 64>> ELSE IF c.kind = "adi" THEN <<d.it, 0, 64>> ELSE At(d)) \o <<d.u, d.mesh>>
    [] d.pc = "advance" -> <<"adv">> \o At(d) \o <<d.u>>
    [] d.pc = "solve" -> IF Stepping(c) THEN <<"solve">> \o At(d) \o <<Solve(d.u, d.tp.step, d.mesh)>> ELSE <<"solve", 0, 0, 64, Solve(d.u, 0, d.mesh)>>
    [] d.pc = "div" -> <<"save">> \o At(d) \o <<d.u, d.mesh>>
    [] d.pc = "export" -> <<"export", d.elev, d.u>>
    [] d.pc = "ser" -> <<"ser", d.u>>
    [] d.pc = "irefine" -> <<"irefine", c.mxr>>
    [] d.pc = "prefine" -> <<"prefine", c.mxr, c.pre>>
    [] d.pc \in {"sstate", "sstate2"} -> <<"sstate", d.u>>
    [] d.pc = "rstate" -> <<"rstate", d.sv>>
    [] d.pc = "stagoff" -> <<"stag", 0>>
    [] d.pc = "stagon" -> <<"stag", 1>>
    [] d.pc = "adapt" -> <<"adapt">>
    [] d.pc = "init" -> <<"init">>
    [] d.pc = "adapti" -> <<"adapti", d.it>>
    [] d.pc = "solvei" -> <<"solvei", 1, d.it>>
    [] d.pc \in {"norms", "enorm", "proj"} -> <<d.pc, d.it>>
    [] OTHER -> <<"nothing">>

\* the state which is saved for a restart
Saved(d) == [tp |-> d.tp, u |-> d.u, lev |-> d.rlev + 1, exp |-> Max(d.elev, d.est), mesh |-> d.mesh, nref |-> d.nref]
Refine(d) == [d EXCEPT !.mesh = @ + 1, !.nref = @ + 1]
\* r: the result of the call; x: the results to export became undefined meanwhile
After(c, d, r, x) ==
  Settle(c,
  CASE d.pc = "model" -> IF r = 0 THEN End(d, d.code) ELSE [d EXCEPT !.pc = IF c.kind = "adi" THEN "enorm" ELSE IF d.geo THEN "save" ELSE d.back]
    [] d.pc = "save" -> IF r = 0 THEN End(d, d.code) ELSE [d EXCEPT !.pc = "exp", !.null = @ \/ x]
    [] d.pc = "advance" -> [d EXCEPT !.pc = IF r = 0 THEN d.none ELSE "solve"]
    [] d.pc = "solve" -> LET n == [d EXCEPT !.u = Solve(d.u, IF Stepping(c) THEN d.tp.step ELSE 0, d.mesh)] IN
                         IF c.kind = "stat" THEN IF r = 0 THEN End(n, 2) ELSE SaveState(n, FALSE, TRUE, FALSE, "done", 4)
                         ELSE IF r = 0 THEN IF c.kind = "sol" /\ c.div THEN [n EXCEPT !.pc = "div"] ELSE End(n, 3) ELSE [n EXCEPT !.pc = d.sol]
    [] d.pc = "div" -> End(d, IF r = 0 THEN 4 ELSE 3)
    [] d.pc = "export" -> [d EXCEPT !.pc = "rst"]
    \* a state which can not be saved is left out; the level is only used when it is
    [] d.pc = "ser" -> IF r = 0 THEN [d EXCEPT !.pc = d.back]
                       ELSE IF d.rbad THEN End(d, d.code) ELSE [d EXCEPT !.pc = d.back, !.rlev = @ + 1]
    [] d.pc = "irefine" -> IF r = 0 THEN End(d, 4) ELSE [Refine(d) EXCEPT !.pc = "first"]
    [] d.pc = "sstate" -> [d EXCEPT !.sv = d.u, !.tran = d.tp, !.last = 1, !.refd = 0, !.ip = 0, !.pc = IF c.mxp < 0 THEN "stagoff" ELSE "pred"]
    [] d.pc = "sstate2" -> [d EXCEPT !.sv = d.u, !.i = 0, !.pc = "predStep"]
    [] d.pc = "stagoff" -> [d EXCEPT !.pc = "pred"]
    [] d.pc = "adapt" -> [(IF r > 0 THEN [Refine(d) EXCEPT !.u = d.sv] ELSE d) EXCEPT !.last = r, !.refd = @ + r, !.ip = @ + 1, !.pc = "pred"]
    [] d.pc = "rstate" -> [d EXCEPT !.u = d.sv, !.pc = "stagon"]
    [] d.pc = "stagon" -> [d EXCEPT !.i = 0, !.pc = "fwd"]
    [] d.pc = "init" -> IF r = 0 THEN End(d, 1) ELSE [d EXCEPT !.pc = "adapti"]
    [] d.pc = "adapti" -> IF r = 0 THEN End(d, 0) ELSE [d EXCEPT !.pc = "solvei"]
    [] d.pc = "solvei" -> IF r = 0 THEN End(d, 1) ELSE [d EXCEPT !.pc = "norms"]
    [] d.pc = "norms" -> IF r = 0 THEN End(d, 2) ELSE SaveState(d, TRUE, TRUE, d.it = 1, "adiSaved", 3)
    [] d.pc = "enorm" -> IF r = 0 THEN End(d, 3) ELSE [d EXCEPT !.pc = "proj"]
    [] d.pc = "proj" -> IF r = 0 THEN End(d, 3) ELSE [d EXCEPT !.pc = "save"]
    [] OTHER -> d)

Levels(f) == DOMAIN f
Last(f) == IF Levels(f) = {} THEN -1 ELSE CHOOSE l \in Levels(f) : \A k \in Levels(f) : k <= l
Chosen(f, from) == IF from > 0 THEN from - 1 ELSE Last(f)
Put(f, l, v) == TLCEval([k \in Levels(f) \cup {l} |-> IF k = l THEN v ELSE f[k]])
=============================================================================
