--------------------------- MODULE SimSolverTrace ---------------------------
EXTENDS SimSolver, VF
VARIABLES d,       \* the driver
          file,    \* the restart file: the states by level
          old,     \* levels in it which are left from an earlier run
          take,    \* the level to restart from, -1: none
          t, i
vars == <<d, file, old, take, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ d = [pc |-> "none"] /\ file = <<>> /\ old = {} /\ take = -1
Idle == d.pc \in {"none", "end"}
\* the mesh of levels from earlier runs may have been replaced
Unknown == C.kind = "ts" /\ take \in old
TNext == /\ i < Len(Traces[t].s) /\ t' = t
         /\ LET e == Ev IN
            CASE e.op = "run" -> /\ Same2("idle", Idle, TRUE)
                                 /\ d' = New(C, e.save, e.rst, e.rbad) /\ take' = IF e.from < 0 THEN -1 ELSE IF Chosen(file, e.from) \in Levels(file) THEN Chosen(file, e.from) ELSE -2
                                 /\ old' = (IF e.from < 0 THEN Levels(file) ELSE old) /\ file' = file /\ i' = i + 1
              [] e.op = "basis" -> /\ UNCHANGED <<file, old, take>> /\ i' = i + 1
                                   /\ IF take = -2 THEN d' = [d EXCEPT !.mesh = e.mesh, !.nref = e.nref] \* fails later if not here
                                      ELSE /\ Same2("mesh", <<e.ok, e.mesh, e.nref>>, <<TRUE, file[take].mesh, file[take].nref>>)
                                           /\ d' = [d EXCEPT !.mesh = e.mesh, !.nref = e.nref, !.pre = IF e.nref > 0 THEN 0 ELSE @]
              [] e.op = "read" -> /\ Same2("read", e.ok, d.pc # "end")
                                  /\ (e.ok /\ C.kind = "ts" /\ d.pre > 0 => Same2("refined at first", d.nref > 0, TRUE))
                                  /\ Same2("several steps", e.multi, Stepping(C) /\ Multi(C, d.tp))
                                  /\ LET n == IF d.pc = "end" THEN d ELSE IF take = -1 THEN Settle(C, [d EXCEPT !.pc = "start"]) ELSE [d EXCEPT !.pc = "deser"] IN d' = n
                                  /\ UNCHANGED <<file, old, take>> /\ i' = i + 1
              [] e.op = "restart" -> /\ Same2("restarted", e.ok, d.pc = "taken")
                                     /\ (e.ok => Same2("state", e.a, At(d) \o <<d.u>>))
                                     /\ LET n == IF e.ok THEN Settle(C, [d EXCEPT !.pc = "start"]) ELSE [d EXCEPT !.pc = "none"] IN d' = n
                                     /\ UNCHANGED <<file, take>> /\ i' = i + 1
                                     /\ old' = IF e.ok THEN old \cup {l \in Levels(file) : l > take} ELSE old
              [] e.op = "call" /\ e.f = "deser" ->
                   /\ Same2("call", <<"deser", e.a>>, IF take >= 0 THEN <<d.pc, <<file[take].u>> >> ELSE "none")
                   /\ LET n == IF e.r = 0 THEN [d EXCEPT !.pc = "none"] ELSE [Take(C, d, file[take]) EXCEPT !.pc = "taken"] IN d' = n
                   /\ UNCHANGED <<file, old, take>> /\ i' = i + 1
              [] e.op = "call" /\ e.f = "prefine" -> \* when the input is read
                   /\ Same2("call", <<e.f, d.pc, e.a, d.nref>>, <<"prefine", "read", <<C.mxr, C.pre>>, 0>>)
                   /\ LET n == IF e.r = 0 THEN [d EXCEPT !.pc = "end"] ELSE Refine(d) IN d' = n
                   /\ UNCHANGED <<file, old, take>> /\ i' = i + 1
              [] e.op = "call" /\ e.f \notin {"deser", "prefine"} ->
                   /\ Same2("call", <<e.f>> \o e.a, Expect(C, d))
                   /\ LET n == After(C, d, e.r, e.x = 1)
                          w == d.pc = "ser" /\ e.r = 1 /\ ~d.rbad IN
                      /\ d' = n
                      /\ file' = IF w THEN Put(file, d.rlev + 1, Saved(d)) ELSE file
                      /\ old' = IF w THEN old \ {d.rlev + 1} ELSE old
                   /\ take' = take /\ i' = i + 1
              [] e.op = "killed" -> Same2("interrupted", d.pc, "solve") /\ d' = [d EXCEPT !.pc = "end"] /\ UNCHANGED <<file, old, take>> /\ i' = i + 1
              [] e.op = "end" -> Same2("status", <<e.r, d.pc>>, <<d.ret, "end">>) /\ UNCHANGED <<d, file, old, take>> /\ i' = i + 1
         /\ (i' = Len(Traces[t].s) => Done(t))
\* the rest of the history is not prescribed
TSkip == i < Len(Traces[t].s) /\ Unknown /\ i' = Len(Traces[t].s) /\ UNCHANGED <<d, file, old, take, t>> /\ Done(t)
TStep == IF Unknown THEN TSkip ELSE TNext
TSpec == TInit /\ [][TStep]_vars
=============================================================================
