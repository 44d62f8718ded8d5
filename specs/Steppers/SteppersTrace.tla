---------------------------- MODULE SteppersTrace ----------------------------
EXTENDS Steppers, VF
VARIABLES t, i
vars == <<c, st, t, i>>
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ c = Traces[t].c /\ Traces[t].s[1].op = "begin"
         /\ st = CASE c.kind = "bdf" -> [step |-> c.first] [] c.kind = "names" -> [step |-> 0] [] OTHER -> Start
\* coefficients up to the rounding of the tableau
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y) == LET m == Max2(Len(x), Len(y))   a == Pad(x, m)   b == Pad(y, m) IN \A j \in 1..m : Abs(a[j] - b[j]) <= Tab(c.meth).tol
Like(x, y) == x.h = y.h /\ x.bc = y.bc /\ Close(x.k, y.k)
SameVec(what, obs, spec) == IF Like(obs, spec) THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
SameEval(what, j, obs, spec) ==
  IF Like(obs, spec) /\ obs.t = spec.t /\ obs.cv = spec.cv /\ (what = "initial" \/ obs.new = spec.new) THEN TRUE
  ELSE Mismatch(t, i + 1, <<what, j, obs>>, <<what, j, spec>>)
SameEvals(what, obs, spec) == /\ Same2(<<what, "evaluations">>, Len(obs), Len(spec))
                              /\ \A j \in 1..Len(obs) : SameEval(what, j, obs[j], spec[j])
Prefix(q, m) == SubSeq(q, 1, Min2(m, Len(q)))
Step ==
  LET e == Ev   a == TLCEval(Advance(st))   r == TLCEval(Solve(a.s, e.ests)) IN
  IF e.hit THEN /\ Same2("ok", e.ok, FALSE)
                /\ SameEvals("initial", e.ics, Prefix(a.ev, Len(e.ics)))
                /\ SameEvals("stage", e.ev, Prefix(r.ev, Len(e.ev)))
                /\ st' = [st EXCEPT !.step = -1]
  ELSE /\ Same2("ok", e.ok, r.ok)
       /\ SameEvals("initial", e.ics, a.ev)
       /\ SameEvals("stage", e.ev, r.ev)
       /\ Same2("estimates", Len(e.err), Len(r.err))
       /\ \A j \in 1..Len(e.err) : SameVec("error", e.err[j], r.err[j])
       /\ (r.ok => Same2("time", <<e.t, e.dt>>, <<r.s.t, r.s.dt>>) /\ SameVec("solution", e.u, r.s.u))
       /\ st' = r.s
Bdf ==
  LET e == Ev   k == st.step + 1   o == Capped(c.order)
      cf == IF c.degree = 1 THEN Bdf1(o, k, e.dt, e.dtn) ELSE Bdf2(o, k)
  IN IF c.order = 0 THEN Same2("stationary", e.ok, FALSE) /\ UNCHANGED st
     ELSE /\ Same2("ok", e.ok, TRUE)
          /\ Same2("coefficients", e.cf, cf)
          /\ Same2("order", <<e.ord, e.act, e.deg>>, <<BdfOrder(c.degree, o, k), o, c.degree>>)
          /\ (e.dt = e.dtn => Same2("extrapolated", e.ext, Extrapolated(o, k, e.v)))
          /\ (c.degree = 2 => /\ Same2("Newton matrix", e.N, NewtonMatrix(cf, e.h, e.M, e.K))
                              /\ Same2("right-hand side", e.R, RhsVector(cf, e.h, e.M, e.b, e.vec)))
          /\ st' = [st EXCEPT !.step = k]
NamesOk ==
  LET e == Ev IN
  /\ Same2("names", DOMAIN e.id \cap DOMAIN Names, DOMAIN Names)
  /\ \A x \in DOMAIN Names : Same2(x, e.os[x], Names[x])
  /\ \A x \in DOMAIN e.id : IF x = "nosuch" THEN Same2("unknown method", e.id[x], 0) ELSE e.id[x] > 0 /\ \A y \in DOMAIN e.id \ {x} : Same2(<<x, y, "same method">>, e.id[x] = e.id[y], FALSE)
  /\ UNCHANGED st
TNext == /\ i < Len(Traces[t].s)
         /\ CASE c.kind = "bdf" -> Bdf
              [] c.kind = "names" -> NamesOk
              [] Ev.op = "restart" -> Same2("ok", Ev.ok, TRUE) /\ st' = Restart(st)
              [] Ev.op = "end" -> UNCHANGED st
              [] Ev.op = "step" -> st.step >= 0 /\ Step
         /\ i' = i + 1 /\ UNCHANGED <<c, t>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
