----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, VF
VARIABLES s, ar, t, i
vars == <<s, ar, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ s = [k \in 1..Len(Traces[t].c.kind) |-> Empty] /\ ar = <<>>
         /\ Same2("no solutions", Traces[t].s[1].all, s)
Ar(a) == IF a \in DOMAIN ar THEN ar[a] ELSE NoArchive
Kind(k) == C.kind[k + 1]
Name(k) == C.name[k + 1]
Sim(k, x) == LET n == [s EXCEPT ![k + 1] = x] IN s' = n
TNext == /\ i < Len(Traces[t].s) /\ i' = i + 1 /\ t' = t
         /\ LET e == Ev IN
            CASE e.op = "init" -> Sim(e.k, Initialise(s[e.k + 1], Kind(e.k), e.nd, e.ns)) /\ ar' = ar /\ Same2("initialised", e.ok, TRUE)
              [] e.op = "push" -> Sim(e.k, Push(s[e.k + 1], IF Kind(e.k) = 0 THEN e.nv ELSE IF Kind(e.k) = 1 THEN 1 ELSE 3)) /\ ar' = ar /\ Same2("advanced", e.ok, TRUE)
              [] e.op = "set" -> Sim(e.k, Put(s[e.k + 1], e.i, e.v)) /\ ar' = ar
              [] e.op = "ref" -> Sim(e.k, IF Kind(e.k) > 0 THEN [s[e.k + 1] EXCEPT !.r = e.v] ELSE s[e.k + 1]) /\ ar' = ar
              [] e.op = "save" -> LET n == At(ar, e.a, Save(Ar(e.a), Name(e.k), s[e.k + 1], Kind(e.k))) IN
                                  s' = s /\ ar' = n /\ Same2("saved", e.ok, TRUE)
              [] e.op = "rest" -> LET x == s[e.k + 1]   y == Restore(Ar(e.a), Name(e.k), x, Kind(e.k))   g == Readable(Ar(e.a), Name(e.k), x) IN
                                  /\ Same2("restored", e.ok, g)
                                  \* the other data may have been taken before the solutions were found incomplete
                                  /\ Sim(e.k, IF ~g /\ e.all[e.k + 1].r = x.r THEN x ELSE y) /\ ar' = ar
              [] e.op = "dmg" -> LET n == At(ar, e.a, Damage(Ar(e.a), Name(e.k), e.cut)) IN s' = s /\ ar' = n
              [] e.op = "copy" -> LET n == At(ar, e.b, Ar(e.a)) IN s' = s /\ ar' = n
         /\ Same2(<<Ev.op, "solutions">>, Ev.all, s')
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
