----------------------------- MODULE IstlTrace -----------------------------
EXTENDS Istl, VF
VARIABLES t, i
vars == <<c, ms, t, i>>
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ c = Traces[t].c /\ Traces[t].s[1].op = "begin"
         /\ ms = [s \in 1..Traces[t].c.slots |-> Void]
         /\ Same2("settings read", Traces[t].s[1].ok, TRUE)
Min2(x, y) == IF x < y THEN x ELSE y
After(e) ==
  LET a == ms[e.s] IN
  CASE e.op = "new" -> New
    [] e.op = "iam" -> InitAssembly(a, e.g)
    [] e.op = "init" -> Init0(a)
    [] e.op = "inz" -> Inz(a)
    [] e.op = "sam" -> Add(a, e.e, e.x)
    [] e.op = "end" -> End(a)
    [] e.op = "cpy" -> [ms[e.b] EXCEPT !.n = 0, !.pre = NoPre]
Step ==
  LET e == Ev IN
  IF e.op # "sol" THEN LET a == TLCEval(After(e)) IN
       /\ Same2("ok", e.ok, TRUE)
       /\ (e.op = "end" => Same2("norm", e.norm, Min2(Norm(a.cur), 1000000)))
       /\ Same2("dimension", e.dim, IF a.mesh > 0 THEN Neq(a.mesh) ELSE 0)
       /\ ms' = [ms EXCEPT ![e.s] = a]
  ELSE LET a == ms[e.s]   p == Prepared(a)   twice == e.mode = 1 /\ "twice" \in DOMAIN e IN
       IF e.mode = 3 THEN /\ Same2("ok", e.ok, FALSE)
                          /\ ms' = [ms EXCEPT ![e.s] = [p EXCEPT !.pre = Unknown]]
       ELSE /\ IF ~e.ok THEN Same2("solved", Must(p), FALSE)
               ELSE /\ Same2("solved an equation without coefficients", EmptyRow(p.cur) /\ \E k \in 1..Len(e.b) : e.b[k] # 0 /\ \A j \in 1..Len(e.b) : p.cur[k][j] = 0, FALSE)
                    /\ IF EmptyRow(p.cur) \/ Answers(p.cur, e.out, e.b) THEN TRUE ELSE Mismatch(t, i + 1, <<"solution", e.out>>, <<"of", p.cur, "for", e.b>>)
            /\ ms' = [ms EXCEPT ![e.s] = LET q == Solved(p, e.ok) IN IF twice /\ e.ok THEN Solved(Prepared(q), TRUE) ELSE q]
TNext == /\ i < Len(Traces[t].s) /\ Step
         /\ i' = i + 1 /\ UNCHANGED <<c, t>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
