----------------------------- MODULE GenSolver -----------------------------
(* The behaviours of two solvers used in turn, as scenarios for the implementation *)
EXTENDS MCSolver, Json
VARIABLES c2, st2, h
GVars == <<c, st, w, d0, n, c2, st2, h>>
Some(S) == {RandomElement(S)}
GInit == /\ n = -1 /\ c = <<>> /\ c2 = <<>> /\ st = New /\ st2 = New /\ w = Work(New, <<>>, 0) /\ d0 = <<0, 0>> /\ h = <<>>
Step(k, cc, s0) == \E s \in Some([1..RandomElement(1..6) -> Entries]) : \E fk \in Some({0, 0, 0, 2, 5, 8}) : \E sub \in Some({3, 1, 2, 0}) :
                     w' = TLCEval(SolveStep(cc, s0, sub, s, fk, FALSE)) /\ h' = Append(h, <<k, sub, fk, s>>)
\* the initial states are computed once only
Choose == /\ n = -1 /\ n' = 0 /\ c' \in Some(Configs) /\ c2' \in Some(Configs) /\ UNCHANGED <<st, w, d0, st2, h>>
Go    == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<c, c2, d0>>
         /\ \/ Step(1, c, st) /\ st' = TLCEval(Rest(w')) /\ st2' = st2
            \/ Step(2, c2, st2) /\ st2' = TLCEval(Rest(w')) /\ st' = st
GNext == \/ Choose
         \/ n >= 0 /\ Go
GSpec == GInit /\ [][GNext]_GVars
Dump == n = Steps => PrintT(<<"SCN", ToJson([c |-> <<c, c2>>, h |-> h])>>)
=============================================================================
