---------------------------- MODULE AdaptiveTrace ----------------------------
EXTENDS Adaptive, VF
VARIABLES d, t, i
vars == <<d, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Check(what, ok) == IF ok THEN TRUE ELSE Mismatch(t, i + 1, <<what, Ev>>, "another result")
Set1(l) == {l[k] + 1 : k \in 1..Len(l)}
NoDup(l) == Cardinality(Set1(l)) = Len(l)
Without(e, f) == [x \in DOMAIN e \ f |-> e[x]]
Chosen(P, it, x, e) ==
  LET b == Beta(P, it) IN
  IF P.type = "true" THEN Same2("truebeta", <<e.el, e.er>>, <<<<>>, [k \in 1..Len(x) |-> 2 * x[k]]>>)
  ELSE /\ Same2("errors", e.er, <<>>)
       /\ Check("duplicates", NoDup(e.el))
       /\ Check("marked", MarkOK(P, b, Candidates(P, x), Set1(e.el)))
Calc(e) ==
  LET P == d.P
      r == Decision(C, P, e)
      x == Candidates(P, e.x)
      none == P.type # "true" /\ AMark(P, Beta(P, e.it), x) = {}
  IN IF r < 0 THEN Check("failure", e.r < 0 /\ e.el = <<>>)
     ELSE IF r = 0 THEN Same2("stop", <<e.r, e.el>>, <<0, <<>>>>)
     ELSE IF none THEN Same2("nothing", <<e.r, e.el>>, <<0, <<>>>>)
     ELSE /\ Chosen(P, e.it, e.x, e)
          /\ Same2("number", e.r, IF P.type = "true" THEN Len(e.x) ELSE Len(e.el))
          /\ Same2("options", e.opt, Options(P, Beta(P, e.it)))
Pc(l) == Check(d.pc, d.pc \in l)
Skip == Done(t) /\ i' = Len(Traces[t].s) /\ UNCHANGED <<d, t>>
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin" /\ d = New(Traces[t].c)
Step(e) ==
  CASE e.op = "parsed" -> Same2("parsed", e.r, TRUE) /\ d' = Parsed(d)
    [] e.op = "calc" -> Calc(e) /\ d' = d
    [] e.op = "prm" -> LET n == Initialized(C, d) IN Pc({"init"}) /\ Same2("norm", [ok |-> e.ok, adaptor |-> e.adaptor, norm |-> e.norm, row |-> e.row], n.A) /\ d' = n
    [] e.op = "refine" -> /\ Pc({"adapt"})
                          /\ Check("needless", NeedsRefine(C, d))
                          /\ Chosen(d.P, d.k, Indicators(C, d.A, d.m), e)
                          /\ Same2("refine", <<e.opt, e.sol, e.r>>, <<Options(d.P, Beta(d.P, d.k)), IF C.kind = "iso" /\ C.transfer THEN <<Const(Len(d.m) + 1, d.k - 1)>> ELSE <<>>, Works(C, d)>>)
                          /\ d' = Refine(C, d, Set1(e.el))
    [] e.op = "adapted" -> /\ Pc({"adapt", "refined"})
                           /\ Check("not refined", d.pc = "refined" \/ ~NeedsRefine(C, d))
                           /\ LET n == Adapted(C, d) IN Same2("adapted", <<e.k, e.r>>, <<d.k, n.pc = "cycle">>) /\ d' = n
    [] e.op = "solved" -> Pc({"cycle"}) /\ Same2("left", d.todo, <<>>) /\ Same2("solved", <<e.k, e.r>>, <<d.k, d.ok>>) /\ d' = Solved(d)
    [] e.op = "glv" -> Pc({"plot"}) /\ Same2("glv", <<e.k, e.r>>, <<d.k, Works(C, d)>>) /\ d' = PlotFail(C, d)
    [] e.op = "dump" -> Pc({"dump"}) /\ Same2("dump", e, DumpOf(C, d)) /\ d' = Dump(d)
    [] e.op = "ret" -> Pc({"end"}) /\ Check("code", (e.code = 0) = d.ok) /\ d' = End(d)
    [] OTHER -> /\ Pc({"cycle"})
                /\ Check("too much", d.todo # <<>>)
                /\ Same2("task", Without(e, {"r"}), Head(d.todo))
                /\ (IF e.op \in Sure THEN TRUE ELSE Same2("result", e.r, Works(C, d)))
                /\ d' = Task(C, d)
Undecided == d.pc = "adapt" /\ d.k > 1 /\ Tie(C, d.P, d.A, d.m)
TNext == /\ i < Len(Traces[t].s)
         /\ IF Undecided THEN Skip
            ELSE /\ t' = t /\ i' = i + 1 /\ Step(Ev) /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
