------------------------------ MODULE Adaptive ------------------------------
(* Adaptive mesh refinement: which elements are refined (AdaptiveSetup), and the adaptive solution loop
   (SIMSolverAdapImpl over AdaptiveSIM or AdaptiveISolver).
   Errors are natural numbers; percentages are in quarters; limits are compared after multiplication with 400. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------------ input
Default == [beta |-> 40, fn |-> FALSE, errtol |-> 4, maxstep |-> 10, maxdof |-> 1000000, cond |-> -1, knot |-> 1,
            scheme |-> 0, type |-> "none", eps |-> -1, lin |-> FALSE, tj |-> -1, asp |-> -4, gap |-> FALSE, adaptor |-> 0, norm |-> 0]
TypeOf(s, old) == CASE s \in {"threshold", "threashold", "maximum", "Maximum"} -> "max"
                    [] s = "average" -> "avg" [] s = "minimum" -> "min" [] s \in {"truebeta", "TrueBeta"} -> "true"
                    [] s = "dorfel" -> "dor" [] s \in {"symmetrized", "symmetric"} -> "sym"
                    [] OTHER -> old
SchemeOf(s, old) == CASE s = "fullspan" -> 0 [] s = "minspan" -> 1 [] s = "isotropic_function" -> 2 [] OTHER -> old
AtLeast(x, v, old) == IF v >= 0 THEN x ELSE old
Child(p, x) ==
  CASE x.n = "maxstep" -> [p EXCEPT !.maxstep = x.v]
    [] x.n = "maxdof" -> [p EXCEPT !.maxdof = x.v]
    [] x.n = "errtol" -> [p EXCEPT !.errtol = x.v]
    [] x.n = "maxcondition" -> [p EXCEPT !.cond = x.v]
    [] x.n = "knot_mult" -> [p EXCEPT !.knot = x.v]
    [] x.n = "use_norm" -> [p EXCEPT !.adaptor = x.v, !.norm = AtLeast(x.ix, x.ix, @)]
    [] x.n = "use_sub_norm" -> [p EXCEPT !.norm = x.v]
    [] x.n = "test_linear_independence" -> [p EXCEPT !.lin = TRUE]
    [] x.n = "scheme" -> [p EXCEPT !.scheme = SchemeOf(x.v, @), !.tj = AtLeast(x.tj, x.tj, @), !.asp = AtLeast(x.asp, x.asp, @), !.gap = AtLeast(x.gap = 1, x.gap, @)]
    [] x.n = "beta" -> [p EXCEPT !.beta = x.v, !.fn = (x.fn = 1), !.type = TypeOf(x.type, @),
                                 !.eps = IF TypeOf(x.type, "") = "sym" THEN AtLeast(x.eps, x.eps, @) ELSE @]
    [] x.n = "flat" -> [p EXCEPT !.beta = x.l[1], !.errtol = x.l[2],
                                 !.maxstep = IF Len(x.l) > 2 THEN x.l[3] ELSE @, !.maxdof = IF Len(x.l) > 3 THEN x.l[4] ELSE @,
                                 !.knot = IF Len(x.l) > 4 THEN x.l[5] ELSE @, !.scheme = IF Len(x.l) > 5 THEN x.l[6] ELSE @]
    [] OTHER -> p
RECURSIVE Fold(_, _)
Fold(p, l) == IF l = <<>> THEN p ELSE Fold(TLCEval(Child(p, Head(l))), Tail(l))
Params(c) == Fold(Default, c.x)
Beta(P, it) == IF P.fn THEN P.beta * (it - 1) ELSE P.beta
Options(P, b) == <<b \div 4, P.knot, P.scheme, IF P.lin THEN 1 ELSE 0, P.tj, (P.asp + 400) \div 4 - 100, IF P.gap THEN 1 ELSE 0, IF P.type = "true" THEN 1 ELSE 0>>

\* ------------------------------------------------------------------ marking
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Idx(x) == 1..Len(x)
Ceil(a, b) == (a + b - 1) \div b
\* values in decreasing order
Rank(x, i) == Cardinality({j \in Idx(x) : (x[j] > x[i]) \/ (x[j] = x[i] /\ j < i)}) + 1
Sorted(x) == [k \in Idx(x) |-> x[CHOOSE i \in Idx(x) : Rank(x, i) = k]]
Largest(x) == CHOOSE v \in {x[i] : i \in Idx(x)} : \A i \in Idx(x) : x[i] <= v
Smallest(x) == CHOOSE v \in {x[i] : i \in Idx(x)} : \A i \in Idx(x) : x[i] >= v
\* the least leading part of the sorted values s which has the wanted share of the total: the first value not needed for that
RECURSIVE DorfelLimit(_, _, _, _)
DorfelLimit(s, want, cur, k) == IF k > Len(s) THEN s[Len(s)]
                                ELSE IF 400 * cur < want THEN DorfelLimit(s, want, cur + s[k], k + 1) ELSE s[k]
Atleast(P, b, x) ==
  CASE P.type = "max" -> {i \in Idx(x) : 400 * x[i] >= b * Largest(x)}
    [] P.type = "min" -> {i \in Idx(x) : 400 * x[i] >= b * Smallest(x)}
    [] P.type = "avg" -> LET s == b * Sum(x) IN {i \in Idx(x) : 400 * Len(x) * x[i] >= s}
    [] P.type = "dor" -> LET l == DorfelLimit(Sorted(x), b * Sum(x), 0, 1) IN {i \in Idx(x) : x[i] >= l}
MinOf(a, b) == IF a < b THEN a ELSE b
Wanted(b, x) == MinOf(Len(x), Ceil(Len(x) * b, 400))
Top(x, n, M) == Cardinality(M) = n /\ \A i \in M, j \in Idx(x) \ M : x[i] >= x[j]
\* close enough to the last one of the n largest
Near(P, f, v) == IF P.eps < 0 THEN f > 0 /\ v = f ELSE 4 * (f - v) < P.eps * f
MarkOK(P, b, x, M) ==
  CASE P.type = "none" -> Top(x, Wanted(b, x), M)
    [] P.type = "sym" -> LET n == Wanted(b, x)
                             f == IF n = 0 THEN 0 ELSE Sorted(x)[n]
                             N == {i \in Idx(x) : x[i] <= f /\ Near(P, f, x[i])}
                         IN IF n = 0 THEN M = {}
                            ELSE IF N = {} THEN Top(x, n, M)
                            ELSE M = N \cup {i \in Idx(x) : x[i] > f}
    [] OTHER -> M = Atleast(P, b, x)
\* one admissible choice
AMark(P, b, x) ==
  LET top(n) == {i \in Idx(x) : Rank(x, i) <= n} IN
  IF P.type \notin {"none", "sym"} THEN Atleast(P, b, x)
  ELSE IF MarkOK(P, b, x, top(Wanted(b, x))) THEN top(Wanted(b, x))
  ELSE CHOOSE M \in {{i \in Idx(x) : x[i] >= v} : v \in {x[j] : j \in Idx(x)}} : MarkOK(P, b, x, M)
\* the functions (nodes) have the errors of the elements next to them
Functions(x) == [j \in 1..(Len(x) + 1) |-> (IF j > 1 THEN x[j - 1] ELSE 0) + (IF j <= Len(x) THEN x[j] ELSE 0)]
Candidates(P, x) == IF P.scheme = 2 THEN Functions(x) ELSE x

\* ------------------------------------------------------------------ the decision alone
\* g: global norms in quarters; ad: norm group; no: norm; ref: reference norm
Stops(P, it, dofs, nrc) == (it > P.maxstep) \/ (dofs > P.maxdof) \/ (P.cond >= 0 /\ nrc > P.cond)
Decision(c, P, e) ==
  IF (c.np = 0) \/ (e.ad >= Len(e.g)) \/ (e.x = <<>>) \/ (e.ad = 0 /\ ~c.ana) THEN 0
  ELSE IF e.ref < 0 THEN -1
  ELSE IF e.ref = 0 THEN 0
  ELSE IF Stops(P, e.it, e.dofs, e.nrc) \/ (100 * e.g[e.ad + 1][e.no] < P.errtol * e.ref) THEN 0
  ELSE IF c.np > 1 THEN -2 \* only isotropic_function is for several patches
  ELSE 1

\* ------------------------------------------------------------------ the adaptive loop
NProj(c) == c.none + c.proj
InitAdaptor(c, P) ==
  LET a == IF P.adaptor = 0 /\ ~c.ana /\ NProj(c) > 0 THEN 1 ELSE P.adaptor
      pr == a > 0 /\ a <= NProj(c)
      n == IF P.norm > 0 THEN P.norm ELSE IF pr THEN 2 ELSE 4
  IN IF pr THEN [ok |-> TRUE, adaptor |-> a, norm |-> n, row |-> (IF c.ana THEN 4 ELSE 2) + 2 * (a - 1) + n]
     ELSE IF c.ana THEN [ok |-> TRUE, adaptor |-> 0, norm |-> n, row |-> n]
     ELSE [ok |-> FALSE, adaptor |-> 0, norm |-> 0, row |-> 0]
\* norms of element i of the mesh m
Norm(c, A, m, i, dual) ==
  IF A.adaptor > 0 THEN (IF A.norm = 1 THEN A.adaptor * m[i].b ELSE A.adaptor * (IF dual THEN m[i].d ELSE m[i].a))
  ELSE CASE A.norm = 1 -> (IF i = 1 THEN c.U ELSE 0) [] A.norm = 2 -> 0
         [] A.norm = 3 -> (IF i = 1 THEN c.X ELSE 0) [] OTHER -> (IF dual THEN m[i].d ELSE m[i].b)
HasDual(c) == c.dual /\ NProj(c) > 0
Indicators(c, A, m) == [i \in 1..Len(m) |-> Norm(c, A, m, i, FALSE) * (IF HasDual(c) THEN Norm(c, A, m, i, TRUE) ELSE 1)]
Squares(s) == [i \in 1..Len(s) |-> s[i] * s[i]]
\* the squares of the global norm and of the reference norm
Glob2(c, A, m) == Sum(Squares([i \in 1..Len(m) |-> Norm(c, A, m, i, FALSE)]))
Ref2(c, A, m) == IF A.adaptor = 0 THEN c.X * c.X
                 ELSE c.U * c.U + Sum(Squares([i \in 1..Len(m) |-> A.adaptor * m[i].a]))
Reduce(t) == CASE t % 400 = 0 -> <<t \div 400, 1>> [] t % 200 = 0 -> <<t \div 200, 2>> [] t % 100 = 0 -> <<t \div 100, 4>>
               [] t % 80 = 0 -> <<t \div 80, 5>> [] t % 40 = 0 -> <<t \div 40, 10>> [] t % 20 = 0 -> <<t \div 20, 20>>
               [] t % 4 = 0 -> <<t \div 4, 100>>
Accurate(c, P, A, m) == LET f == Reduce(P.errtol) v == f[1] * f[1] * Ref2(c, A, m) IN Glob2(c, A, m) <= (v - 1) \div (f[2] * f[2])
\* too close to call in floating-point numbers
Tie(c, P, A, m) == LET f == Reduce(P.errtol) v == f[1] * f[1] * Ref2(c, A, m) IN
                   v % (f[2] * f[2]) = 0 /\ Glob2(c, A, m) = v \div (f[2] * f[2])
\* an ISolver does not give the condition number
Cond(c) == IF c.kind = "iso" THEN 1 ELSE c.nrc
Enough(c, P, A, m, k) == (Ref2(c, A, m) = 0) \/ Stops(P, k, Len(m) + 1, Cond(c)) \/ Accurate(c, P, A, m)
\* elements which are split
Cut(P, m, M) == IF P.type = "true" THEN {1} ELSE IF P.scheme = 2 THEN {i \in 1..Len(m) : (i \in M) \/ (i + 1 \in M)} ELSE M
Half(x) == [a |-> x.a \div 2, b |-> x.b \div 2, d |-> x.d \div 2]
RECURSIVE Split(_, _, _)
Split(m, S, i) == IF i > Len(m) THEN <<>> ELSE (IF i \in S THEN <<Half(m[i]), Half(m[i])>> ELSE <<m[i]>>) \o Split(m, S, i + 1)

Const(n, v) == [i \in 1..n |-> v]
If(b, s) == IF b THEN s ELSE <<>>
\* what cycle k does on a mesh with n nodes; r: may fail
RECURSIVE Projections(_, _, _, _, _)
Projections(c, A, k, n, m) == IF m > c.proj THEN <<>>
                              ELSE <<[op |-> "proj", m |-> m, x |-> Const(n, k)]>>
                                   \o If(c.dual /\ A.adaptor > 0, <<[op |-> "proj", m |-> m, x |-> Const(n, -k)]>>)
                                   \o Projections(c, A, k, n, m + 1)
Proj(c, v) == Const(c.none, -1) \o Const(c.proj, v)
Cycle(c, A, k, n) ==
  If(k > 1, <<[op |-> "clear"], [op |-> "read", f |-> "model.xinp"], [op |-> "pre"]>>)
  \o (IF c.kind = "run" THEN <<[op |-> "asm", n |-> n], [op |-> "nan"]>>
      ELSE <<[op |-> "isinit", n |-> n]>> \o If(c.transfer /\ k > 1, <<[op |-> "isset", i |-> 0, x |-> Const(n, k + 99)]>>)
           \o <<[op |-> "isolve", x |-> Const(n, IF c.transfer /\ k > 1 THEN k + 99 ELSE 0)]>>)
  \o Projections(c, A, k, n, 1)
  \o <<[op |-> "norms", dual |-> FALSE, np |-> n - 1, pr |-> Proj(c, 10 * k)]>>
  \o If(HasDual(c), <<[op |-> "norms", dual |-> TRUE, np |-> n - 1, pr |-> Proj(c, IF A.adaptor > 0 THEN -10 * k ELSE -1)]>>)
  \o If(c.kind = "iso", <<[op |-> "points", k |-> k]>>)
Sure == {"clear", "isinit", "isset"}

New(c) == [pc |-> "parse", k |-> 0, m |-> IF c.kind = "mark" THEN <<>> ELSE c.e, todo |-> <<>>, nf |-> 0, ok |-> TRUE, A |-> 0, lev |-> 0, P |-> Params(c)]
Works(c, d) == d.nf + 1 # c.fk
Parsed(d) == [d EXCEPT !.pc = "init"]
Initialized(c, d) == LET A == InitAdaptor(c, d.P) IN
                     [d EXCEPT !.A = A, !.pc = IF A.ok THEN "adapt" ELSE "end", !.ok = A.ok, !.k = 1]
\* refinement for cycle k, of the marked elements or functions
NeedsRefine(c, d) == d.k > 1 /\ ~Enough(c, d.P, d.A, d.m, d.k)
                     /\ LET x == Candidates(d.P, Indicators(c, d.A, d.m)) IN IF d.P.type = "true" THEN TRUE ELSE AMark(d.P, Beta(d.P, d.k), x) # {}
Refine(c, d, M) == IF Works(c, d) THEN [d EXCEPT !.nf = @ + 1, !.pc = "refined", !.m = TLCEval(Split(@, Cut(d.P, @, M), 1))]
                   ELSE [d EXCEPT !.nf = @ + 1, !.pc = "refined", !.ok = FALSE]
\* the result of the adaption: go on or stop
Adapted(c, d) == LET go == d.ok /\ (d.pc = "refined" \/ d.k = 1) IN
                 [d EXCEPT !.pc = IF go THEN "cycle" ELSE "end", !.todo = IF go THEN TLCEval(Cycle(c, d.A, d.k, Len(d.m) + 1)) ELSE <<>>]
Task(c, d) == IF Head(d.todo).op \in Sure THEN [d EXCEPT !.todo = Tail(@)]
              ELSE IF Works(c, d) THEN [d EXCEPT !.todo = Tail(@), !.nf = @ + 1]
              ELSE [d EXCEPT !.todo = <<>>, !.nf = @ + 1, !.ok = FALSE]
Solved(d) == [d EXCEPT !.pc = IF d.ok THEN "plot" ELSE "end"]
Plot(c, d) == [d EXCEPT !.nf = @ + 1, !.ok = Works(c, d), !.pc = IF ~Works(c, d) THEN "end" ELSE IF ~c.exp THEN "adapt" ELSE IF c.miss THEN "end" ELSE "dump",
                        !.k = IF Works(c, d) /\ ~c.exp THEN @ + 1 ELSE @]
PlotFail(c, d) == IF c.exp /\ c.miss THEN [Plot(c, d) EXCEPT !.ok = FALSE] ELSE Plot(c, d)
DumpOf(c, d) == [op |-> "dump", lev |-> d.lev, geo |-> TRUE, x |-> Const(Len(d.m) + 1, d.k), pr |-> Proj(c, 10 * d.k), ne |-> Len(d.m), same |-> TRUE]
Dump(d) == [d EXCEPT !.lev = @ + 1, !.k = @ + 1, !.pc = "adapt"]
End(d) == [d EXCEPT !.pc = "done"]
=============================================================================
