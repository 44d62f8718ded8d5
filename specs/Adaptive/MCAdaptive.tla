----------------------------- MODULE MCAdaptive -----------------------------
(* The adaptive loop for all small meshes and settings, with a failure at any place. *)
EXTENDS Adaptive, Json
CONSTANTS Kinds, Types, Betas, Epss, Schemes, MaxSteps, Dofs, Tols, Errors, MaxElms, Fails, Projs, Wide, Exhaustive
VARIABLES c, d, hist
vars == <<c, d, hist>>

Mesh(as, bs) == [i \in DOMAIN as |-> [a |-> as[i], b |-> bs[i], d |-> 16 * (1 + (i % 2))]]
Seqs(S, n) == [1..n -> S]
Xml(ty, b, eps, sch, ms, dof, tol, un) ==
  << [n |-> "maxstep", v |-> ms], [n |-> "errtol", v |-> tol], [n |-> "beta", v |-> b, type |-> ty, eps |-> eps, fn |-> 0],
     [n |-> "scheme", v |-> sch, tj |-> -1, asp |-> -1, gap |-> -1], [n |-> "maxdof", v |-> dof] >>
  \o If(un >= 0, << [n |-> "use_norm", v |-> un, ix |-> -1] >>)
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Start(x, y) == \E k \in Pick(Kinds), ty \in Pick(Types), b \in Pick(Betas), sch \in Pick(Schemes), ms \in Pick(MaxSteps), dof \in Pick(Dofs), tol \in Pick(Tols),
           n \in Pick(1..MaxElms), fk \in Pick(Fails), np \in Pick(Projs), un \in Pick(IF Wide THEN {-1, 0, 1, 2} ELSE {-1}), ana \in Pick(IF Wide THEN BOOLEAN ELSE {FALSE}),
           dual \in Pick(IF Wide THEN BOOLEAN ELSE {FALSE}), none \in Pick(IF Wide THEN 0..1 ELSE {0}), tr \in Pick(IF Wide THEN BOOLEAN ELSE {TRUE}) :
        \E ep \in Pick(IF ty = "symmetrized" THEN Epss ELSE {99}), as \in Pick(Seqs(Errors, n)), bs \in Pick(IF Wide THEN Seqs(Errors, n) ELSE {Const(n, 32)}),
           exp \in Pick(IF Wide THEN BOOLEAN ELSE {TRUE}), miss \in Pick(IF Wide THEN BOOLEAN ELSE {FALSE}), U \in Pick(IF Wide THEN {0, 100} ELSE {100}) :
        /\ x = [kind |-> k, x |-> Xml(ty, b, IF ep = 99 THEN -1 ELSE ep, sch, ms, dof, tol, un), ana |-> ana, dual |-> (dual /\ k = "run"), nrc |-> 4, transfer |-> tr, exp |-> exp, miss |-> (miss /\ exp),
                fk |-> fk, none |-> none, proj |-> np, U |-> U, X |-> 100, e |-> Mesh(as, bs)]
        /\ y = New(x)
Init == /\ hist = <<>>
        /\ IF Exhaustive THEN Start(c, d) ELSE c = [kind |-> "none"] /\ d = [pc |-> "pick"]
Say(e) == hist' = Append(hist, e)
AParse == d.pc = "parse" /\ d' = Parsed(d) /\ Say("parsed")
AInit == d.pc = "init" /\ d' = Initialized(c, d) /\ Say("prm")
Choices == LET x == Candidates(d.P, Indicators(c, d.A, d.m)) b == Beta(d.P, d.k) IN
           IF d.P.type = "true" THEN {{}}
           ELSE IF Exhaustive /\ d.P.type \in {"none", "sym"} THEN {M \in SUBSET Idx(x) : MarkOK(d.P, b, x, M)} ELSE {AMark(d.P, b, x)}
ARefine == /\ d.pc = "adapt" /\ d.k > 1 /\ NeedsRefine(c, d)
           /\ \E M \in Choices : d' = Refine(c, d, M)
           /\ Say(IF d.P.type = "true" THEN "truebeta" ELSE "refine")
AAdapted == /\ (d.pc = "refined" \/ (d.pc = "adapt" /\ ~NeedsRefine(c, d)))
            /\ d' = Adapted(c, d) /\ Say(IF d.pc = "adapt" /\ d.k > 1 THEN "stop" ELSE "adapted")
ATask == d.pc = "cycle" /\ d.todo # <<>> /\ d' = Task(c, d) /\ Say(Head(d.todo).op)
ASolved == d.pc = "cycle" /\ d.todo = <<>> /\ d' = Solved(d) /\ Say("solved")
APlot == d.pc = "plot" /\ d' = PlotFail(c, d) /\ Say("glv")
ADump == d.pc = "dump" /\ d' = Dump(d) /\ Say("dump")
AEnd == d.pc = "end" /\ d' = End(d) /\ Say(IF d.ok THEN "zero" ELSE "nonzero")
APick == d.pc = "pick" /\ Start(c', d') /\ hist' = hist
Next == APick \/ (c' = c /\ (AParse \/ AInit \/ ARefine \/ AAdapted \/ ATask \/ ASolved \/ APlot \/ ADump \/ AEnd))
Spec == Init /\ [][Next]_vars
View == <<c, d>>

\* the cycles are limited
Limited == d.k <= d.P.maxstep + 1
\* the largest errors are refined: an unrefined error is never larger than a refined one; equal errors are not told apart by a limit
Greedy == (d.pc = "adapt" /\ d.k > 1 /\ d.P.type # "true" /\ NeedsRefine(c, d)) =>
          LET x == Candidates(d.P, Indicators(c, d.A, d.m)) b == Beta(d.P, d.k) IN
          \A M \in Choices : /\ \A i \in M, j \in Idx(x) \ M : x[i] >= x[j]
                             /\ (d.P.type \notin {"none", "sym"} => \A i \in M, j \in Idx(x) \ M : x[i] > x[j])
                             /\ (d.P.type = "none" => 400 * Cardinality(M) >= b * Len(x) \/ M = Idx(x))
                             /\ (d.P.type = "dor" => 400 * Sum([i \in Idx(x) |-> IF i \in M THEN x[i] ELSE 0]) >= MinOf(b, 400) * Sum(x))
                             /\ (d.P.type = "sym" => 400 * Cardinality(M) >= b * Len(x) \/ M = Idx(x))
\* the end of a successful run: the mesh is good enough, or a limit is reached, or there is nothing to refine; all its cycles are exported
Stopped == (d.pc = "done" /\ d.ok) => /\ d.k > 1 /\ ~NeedsRefine(c, d)
                                      /\ (c.exp => d.lev = d.k - 1)
\* a failure is not forgotten, and nothing follows it
Failed == /\ (d.nf >= c.fk /\ c.fk > 0 => ~d.ok /\ d.nf = c.fk)
          /\ (~d.ok => d.pc \in {"cycle", "refined", "end", "done"} /\ d.todo = <<>>)
          /\ (d.pc = "done" /\ c.miss => ~d.ok)
\* the mesh gets finer in each cycle
Grows == [][d.k <= d'.k /\ Len(d.m) <= Len(d'.m) /\ (d.pc = "adapt" /\ d'.pc = "refined" /\ d'.ok => Len(d'.m) > Len(d.m))]_vars
\* the sum of the errors of a chain is kept by halving them
Kept == Sum([i \in DOMAIN d.m |-> d.m[i].a]) = Sum([i \in DOMAIN c.e |-> c.e[i].a])
Emit == (d.pc = "done") => PrintT(<<"SCN", ToJson([c |-> c, h |-> hist])>>)
=============================================================================
