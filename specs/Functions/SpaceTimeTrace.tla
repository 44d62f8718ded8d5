--------------------------- MODULE SpaceTimeTrace ---------------------------
EXTENDS SpaceTime, VF
VARIABLES t, i
vars == <<t, i>>
F == Traces[t].c.f
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Grid(a) == IF a[2] > 12 THEN 2000000001 ELSE a[1] * Pow(2, 12 - a[2])
Grids(v) == [k \in DOMAIN v |-> Grid(v[k])]
Abs(n) == IF n < 0 THEN -n ELSE n
One(what, e, S, tol) ==
  LET f == F[e.f + 1]
      G == {Grids(v) : v \in S}
      ok == \E v \in G : Len(v) = Len(e.r) /\ \A k \in DOMAIN v : IF tol THEN Abs(v[k] - e.r[k]) <= 100 ELSE v[k] = e.r[k]
  IN IF ok THEN TRUE ELSE Mismatch(t, i + 1, <<what, f.c, e.r>>, <<what, G>>)
S1(S) == {<<v>> : v \in S}
XX(e) == IF e.hasT # 0 THEN e.X ELSE [e.X EXCEPT ![4] = 0]
Vec(v) == [k \in 1..Len(v) |-> v[k]]
Val(e, f) ==
  CASE f.c = "s" -> S1(TiVal(f.f, e.X[4]))
    [] f.c = "r" -> S1(ReVal(f.f, e.X, e.hasT # 0))
    [] f.c = "t" -> VtVal(f.f.p, e.X[4])
    [] f.c = "v" -> {VeVal(f.f.q, XX(e))}
    [] f.c = "m" -> SumVal(F, f.f.l, e.X, e.hasT # 0)
Der(e, f) ==
  CASE f.c = "s" -> S1(TiDer(f.f, e.X[4]))
    [] f.c = "r" -> S1(ReDer(f.f, e.X, e.hasT # 0, e.dir))
    [] f.c = "v" -> {VeDer(f.f.q, XX(e), e.dir)}
Grad(e, f) ==
  IF f.c = "r" THEN {<<a, b, c>> : a \in ReDer(f.f, e.X, e.hasT # 0, 1), b \in ReDer(f.f, e.X, e.hasT # 0, 2), c \in ReDer(f.f, e.X, e.hasT # 0, 3)}
  ELSE LET n == Len(f.f.q) IN {[k \in 1..(n * n) |-> VeDer(f.f.q, XX(e), 1 + ((k - 1) % n))[1 + ((k - 1) \div n)]]}
Z(f) == CASE f.c = "s" -> TiZero(f.f) [] f.c = "r" -> ReZero(f.f) [] f.c = "t" -> VtZero(f.f.p) [] f.c = "v" -> VeZero(f.f.q)
K(f) == CASE f.c = "s" -> TiConst(f.f) [] f.c = "r" -> ReConst(f.f) [] f.c = "t" -> VtConst(f.f.p) [] f.c = "v" -> VeConst(f.f.q)
\* for expressions, and products with expressions, only the statement that they are zero is binding
Weak(f) == f.c = "v" \/ (f.c = "s" /\ f.f.k = "expr") \/ (f.c = "r" /\ (f.f.g.k = "expr" \/ f.f.h.k = "expr"))
\* expressions without given derivatives are differenced in time over a fixed tiny increment: not judged
Crude(f) == f.ap /\ (f.c = "v" \/ (f.c = "r" /\ f.f.g.k = "expr"))
Query(e) ==
  LET f == F[e.f + 1] IN
  CASE e.op \in {"val", "gval"} -> One(e.op, e, Val(e, f), f.c = "s" /\ f.f.k = "sin")
    [] e.op = "der" -> (IF e.dir = 4 /\ Crude(f) THEN TRUE ELSE One(e.op, e, Der(e, f), f.ap \/ (f.c = "s" /\ f.f.k = "sin")))
    [] e.op = "grad" -> One(e.op, e, Grad(e, f), f.ap)
    [] e.op = "der2" -> One(e.op, e, S1(ReDer2(f.f, e.X, e.hasT # 0, e.dir, e.dir2)), f.ap)
    [] e.op = "zero" -> IF Weak(f) THEN (IF e.r => Z(f) THEN TRUE ELSE Same2("zero", e.r, FALSE)) ELSE Same2("zero", e.r, Z(f))
    [] e.op = "cst" -> IF e.r => K(f) THEN TRUE ELSE Same2("constant", e.r, FALSE)
Exists(f) == CASE f.c = "s" -> f.f.k # "bad" [] f.c = "r" -> Good(f.f) [] OTHER -> TRUE
Built == \A k \in DOMAIN F : /\ Same2("exists", F[k].ok, Exists(F[k]))
                             /\ (F[k].c = "m" => \A j \in DOMAIN F[k].f.l : Same2("accepted", F[k].f.l[j].ok, Fits(F, F[k].f.l, j)))
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin" /\ Built
TNext == /\ i < Len(Traces[t].s)
         /\ Query(Ev)
         /\ t' = t /\ i' = i + 1 /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
