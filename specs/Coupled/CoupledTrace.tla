---------------------------- MODULE CoupledTrace ----------------------------
EXTENDS Coupled, VF
VARIABLES d, m, t, i
vars == <<d, m, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ d = New(Traces[t].c) /\ m = Fields0
\* the residual is data of the scenario
Args(e) == IF e.f = "chk" THEN <<e.a[1], e.a[2], e.a[4]>> ELSE e.a
TNext == /\ i < Len(Traces[t].s) /\ t' = t /\ i' = i + 1
         /\ LET e == Ev IN
            CASE e.op = "step" -> d' = [d EXCEPT !.step = e.n] /\ m' = m
              [] e.op = "do" -> Same2("idle", d.pc, "idle") /\ d' = Start(C, d, e.f, e.a, e.n) /\ m' = m
              [] e.op = "call" -> /\ Same2("call", <<e.s, e.f, Args(e), e.n>>, Expect(C, d))
                                  /\ d' = After(C, d, e.r, IF e.f = "chk" THEN e.a[3] ELSE 0) /\ m' = m
              [] e.op = "ret" -> Same2("done", <<d.pc, e.f, e.ok, e.x, e.n>>, <<"idle", d.f, d.ok, d.x, d.n>>) /\ UNCHANGED <<d, m>>
              [] e.op = "val" -> m' = TLCEval([m EXCEPT !.val = TLCEval([@ EXCEPT ![e.v] = e.x])]) /\ d' = d
              [] e.op = "field" -> m' = SetField(m, e.s, e.n, e.v) /\ d' = d
              [] e.op = "vec" -> m' = TLCEval([m EXCEPT !.vec = TLCEval([@ EXCEPT ![e.s] = @ \cup {e.n}])]) /\ d' = d
              [] e.op = "dep" -> m' = TLCEval([m EXCEPT !.dep = TLCEval([@ EXCEPT ![e.s] = Append(@, e)])]) /\ d' = d
              [] e.op = "getf" -> Same2("field", e.x, FieldOf(m, e.s, e.n)) /\ UNCHANGED <<d, m>>
              [] e.op = "depf" -> Same2("field", e.x, DepField(m, e.s, e.n)) /\ UNCHANGED <<d, m>>
              [] e.op = "fill" -> /\ Same2("filled", e.ok, Has(m, e.s, e.n)) /\ d' = d
                                  /\ m' = IF Has(m, e.s, e.n) THEN TLCEval([m EXCEPT !.val = TLCEval([@ EXCEPT ![m.field[e.s][e.n]] = e.x])]) ELSE m
              [] e.op = "dpat" -> Same2("patch", e.r, DepPatch(m, e.s, e.n, e.k)) /\ UNCHANGED <<d, m>>
              [] e.op = "ext" -> LET x == Extraction(m, e.s, e.k) IN
                                 /\ Same2("ok", e.ok, x.ok)
                                 /\ Same2("vectors", {<<y.n, y.x, y.m>> : y \in {e.v[j] : j \in 1..Len(e.v)}}, {<<n, x.v[n], x.m[n]>> : n \in m.vec[e.s]})
                                 /\ UNCHANGED <<d, m>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSkip == i < Len(Traces[t].s) /\ d.wild /\ i' = Len(Traces[t].s) /\ UNCHANGED <<d, m, t>> /\ Done(t)
TStep == IF d.wild THEN TSkip ELSE TNext
TSpec == TInit /\ [][TStep]_vars
=============================================================================
