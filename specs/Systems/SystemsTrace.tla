---------------------------- MODULE SystemsTrace ----------------------------
EXTENDS Systems, VF
VARIABLES t, i
vars == <<c, ms, t, i>>
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ c = Traces[t].c /\ Traces[t].s[1].op = "begin" /\ ms = <<None, None>>
Observed(e, s) == /\ Same2("multiply", e.got, TRUE)
                  /\ Same2("matrices", e.A, s.A) /\ Same2("vectors", e.b, s.b) /\ Same2("scalars", e.c, s.c) /\ Same2("reactions", e.R, s.R)
\* values observed to a thousandth
\* (a quotient of large numbers)
Thousandths(num, det) == LET a == Abs(num)   d == Abs(det)   v == 1000 * (a \div d) + (1000 * (a % d)) \div d IN IF (num < 0) = (det < 0) THEN v ELSE -v
Near(x, num, det) == Abs(x - Thousandths(num, det)) <= 1
NearAll(what, obs, nums, det) == IF Len(obs) = Len(nums) /\ \A k \in 1..Len(nums) : Near(obs[k], nums[k], det) THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, nums, det>>)
\* small enough to be decided without overflow
Small(A, b, ext) == /\ Neq - Cardinality(Retained(ext)) <= 3 /\ \A k \in 1..Neq : Abs(b[k]) <= 300 /\ \A m \in 1..Neq : Abs(A[k][m]) <= 60
Condense(e, s) ==
  IF e.im \notin 1..c.nA \/ ~Possible(e.ext) THEN Same2("condensed", e.done, FALSE)
  ELSE IF ~Small(s.A[e.im], s.b[1], e.ext) THEN TRUE
  ELSE LET r == TLCEval(Condensed(s.A[e.im], s.b[1], e.ext)) IN
       IF r.det = 0 THEN TRUE
       ELSE /\ Same2("condensed", e.done, TRUE) /\ Same2("recovery matrix", e.rd, TRUE)
            /\ Same2("size", Len(e.Ar), Len(r.i2))
            /\ \A k \in 1..Len(r.i2) : NearAll("condensed matrix", e.Ar[k], r.A[k], r.det)
            /\ NearAll("condensed load", e.br, r.b, r.det)
            /\ Same2("recovered", e.rec, Len(e.xe) = Len(r.i2))
            /\ (e.rec => LET v == TLCEval(Recovered(s.A[e.im], s.b[1], r, e.xe)) IN
                         NearAll("recovered unknowns", e.xf, [d \in 1..NDof |->
                           IF d \in Constrained THEN r.det * Value(d)
                           ELSE LET q == CHOOSE q \in 1..Neq : Eqs[q] = d IN
                                IF Pos(r.i2, q) # {} THEN r.det * e.xe[CHOOSE k \in Pos(r.i2, q) : TRUE] ELSE v[CHOOSE k \in Pos(r.i1, q) : TRUE]], r.det))
Forces(e) ==
  IF ~(\A k \in 1..Len(e.nodes) : e.nodes[k] \in 1..c.nn) THEN Same2("nodes", e.ok0, FALSE)
  ELSE LET F == [n \in 1..c.nn |-> [d \in 1..c.nf |-> IF n \in Range(e.nodes) THEN NodalForce(e.els, n, d) ELSE 0]] IN
       /\ Same2("nodes", e.ok0, TRUE)
       /\ \A k \in 1..Len(e.els) : Same2("contributes", e.oks[k] = 1, TRUE)
       /\ Same2("numbers", e.who, e.nodes)
       /\ Same2("forces", e.f, [k \in 1..Len(e.nodes) |-> F[e.nodes[k]]])
       /\ Same2("forces of nodes", e.byn, F)
       /\ Same2("total", e.tot, [d \in 1..c.nf |-> Sum([n \in 1..c.nn |-> F[n][d]])])
Blocks(e) ==
  LET off == OffDiag(Len(c.bl), c.sym)   n == Len(c.bl) IN
  /\ Same2("ok", e.ok, TRUE) /\ Same2("illegal", e.bad, FALSE)
  /\ Same2("sizes", e.dims, [k \in 1..(n + Len(e.sg)) |-> IF k <= n THEN (IF c.bl[k].nul THEN <<0, 0>> ELSE <<Size(c.bl, c.nen, k), Size(c.bl, c.nen, k)>>)
                                                          ELSE <<Size(c.bl, c.nen, off[k - n][1]), Size(c.bl, c.nen, off[k - n][2])>>])
  /\ Same2("Newton matrix", e.N, Newton(c.bl, c.nen, c.sym, e.vals, e.sg))
  /\ Same2("load", e.R, Load(c.bl, c.nen, e.vecs))
Norms(e) == /\ Same2("ok", e.ok, TRUE)
            /\ Same2("sums", e.sums, LET S == NormSums(e.sizes, e.vals) IN [g \in 1..Len(S) |-> [j \in 1..Len(S[g]) |-> Final(e.fin, S[g][j])]])
            /\ Same2("element norms", e.elm, [k \in 1..Len(e.vals) |-> [j \in 1..Len(e.vals[k]) |-> Final(e.fin, e.vals[k][j])]])
Step ==
  LET e == Ev IN
  CASE e.op = "blk" -> Blocks(e) /\ UNCHANGED ms
    [] e.op = "nrm" -> Norms(e) /\ UNCHANGED ms
    [] e.op = "frc" -> Forces(e) /\ UNCHANGED ms
    [] e.op = "end" -> UNCHANGED ms
    [] e.op = "new" -> Same2("ok", e.ok, TRUE) /\ ms' = [ms EXCEPT ![e.s] = New]
    [] e.op = "asc" -> Same2("ok", e.ok, e.a \in 1..c.nA /\ e.b \in 1..c.nB) /\ ms' = IF e.ok THEN [ms EXCEPT ![e.s].as[e.a] = e.b] ELSE ms
    [] e.op = "ini" -> ms' = [ms EXCEPT ![e.s] = Initialized(@, e.lhs)]
    [] e.op = "elm" -> Same2("ok", e.ok, TRUE) /\ ms' = [ms EXCEPT ![e.s] = TLCEval(Add(@, e))]
    [] e.op = "fin" -> Same2("ok", e.ok, TRUE) /\ Observed(e, ms[e.s]) /\ UNCHANGED ms
    [] e.op = "obs" -> Observed(e, ms[e.s]) /\ UNCHANGED ms
    [] e.op = "cpy" -> ms' = [ms EXCEPT ![e.s] = TLCEval(Copied(ms[e.o]))] /\ Observed(e, ms'[e.s])
    [] e.op = "add" -> ms' = [ms EXCEPT ![e.s] = TLCEval(Added(@, ms[e.o]))] /\ Observed(e, ms'[e.s])
    [] e.op = "con" -> Condense(e, ms[e.s]) /\ UNCHANGED ms
TNext == /\ i < Len(Traces[t].s)
         /\ Step
         /\ i' = i + 1 /\ UNCHANGED <<c, t>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
