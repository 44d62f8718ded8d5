---------------------------- MODULE MatrixTrace ----------------------------
EXTENDS Matrix, VF
VARIABLES t, i
vars == <<c, ms, t, i>>
Ev == Traces[t].s[i + 1]
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ c = Traces[t].c /\ Traces[t].s[1].op = "begin"
         /\ ms = [s \in 1..Traces[t].c.slots |-> None]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Obs(A, o, s) ==
  IF A.kind = "void" THEN TRUE ELSE
  /\ Same2(<<"dimension", s>>, <<o.r, o.k>>, <<A.r, A.k>>)
  /\ Same2(<<"zero", s>>, o.zero, IsZero(A))
  /\ Readable(A) =>
       /\ Same2(<<"values", s>>, o.v, Values(A))
       /\ Sparse(A) => Same2(<<"number of non-zeros", s>>, o.nnz, Cardinality(DOMAIN A.v))
       /\ Same2(<<"norm", s>>, o.norm, Norm(A))
Step ==
  LET e == Ev IN
  IF ~Contract(e.op, e.s, e.a) THEN Mismatch(t, i+1, "driver left the contract", e.op)
  ELSE LET r == TLCEval(Result(e.op, e.s, e.a))
           m2 == [ms EXCEPT ![e.s] = r.A]
       IN  /\ Same2("ok", e.ok, r.ok)
           /\ IF e.op = "sol" /\ r.ok THEN IF Answers(ms[e.s], e.out, e.a[3]) THEN TRUE
                                            ELSE Mismatch(t, i+1, <<"solution", e.out>>, <<"of", Values(ms[e.s]), "for", e.a[3]>>)
              ELSE IF e.op = "sol" THEN TRUE ELSE Same2("result", e.out, r.out)
           /\ \A s \in 1..Len(m2) : Obs(m2[s], e.m[s], s)
           /\ ms' = m2
TNext == /\ i < Len(Traces[t].s)
         /\ Step
         /\ i' = i + 1 /\ UNCHANGED <<c, t>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
