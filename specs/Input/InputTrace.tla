----------------------------- MODULE InputTrace -----------------------------
EXTENDS Input, VF
VARIABLES d, t, i
vars == <<d, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Obs(o) == [o EXCEPT !.proj = {@[j] : j \in 1..Len(@)}]
Differ(o, p) == {f \in DOMAIN p : o[f] # p[f]}
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin" /\ d = New(Traces[t].c)
TNext == /\ i < Len(Traces[t].s) /\ t' = t /\ i' = i + 1
         /\ LET e == Ev IN
            CASE e.op = "read" -> Same2("idle", d.pc, "idle") /\ d' = Read(C, d)
              [] e.op = "parse" -> /\ Same2("offered", e.x, IF d.pc = "parse" THEN Head(d.todo) ELSE Bad.x)
                                   /\ (e.x.n = "geometry" => Same2("discretization", e.discr, d.opt.discr))
                                   /\ (e.r => Same2("accepted", e.r, ~Rejected(e.x)))
                                   /\ d' = Take(C, d, e.r \/ Rejected(e.x))
              [] e.op = "ret" -> LET f == Finish(C, d) o == Obs(e.opt) IN
                                 /\ Same2("done", <<d.pc, e.ok>>, <<"done", d.ok>>)
                                 /\ Same2("options", [x \in Differ(o, f.opt) |-> o[x]], [x \in Differ(o, f.opt) |-> f.opt[x]])
                                 /\ d' = f
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
