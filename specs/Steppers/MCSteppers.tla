----------------------------- MODULE MCSteppers -----------------------------
(* All histories of few steps (Sim = FALSE), or random ones. *)
EXTENDS Steppers, Json
CONSTANTS Sim, Depth
VARIABLES n, h, last
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Methods(k) == CASE k = "rk" -> {"euler", "heun", "rk3", "rk4"} [] k = "rke" -> {"heuneuler", "bs", "fehlberg"}
                [] k = "ab" -> {"ab1", "ab2", "ab3", "ab4", "ab5"} [] k = "am" -> {"am1", "am2", "am3", "am4"}
Kinds == {"rk", "rke", "ab", "am"}
Choose(k, m, lin, dt, dm, ics, al) == [kind |-> k, meth |-> m, lin |-> lin, dt |-> dt, dtmin |-> dm, ics |-> ics, alone |-> al]
None == [ok |-> TRUE, ev |-> <<>>, err |-> <<>>]
MCInit == /\ h = <<>> /\ last = None
          /\ IF Sim THEN n = -1 /\ c = Choose("rk", "euler", FALSE, 1, 1, 1, TRUE)
             ELSE n = 0 /\ \E k \in Kinds : \E m \in Methods(k) : \E lin \in BOOLEAN, ics \in (IF k \in {"ab", "am"} THEN 1..OrderOf(m) ELSE {1}) :
                    c = Choose(k, m, lin, 2, 1, ics, TRUE)
          /\ st = Start
Setup == /\ n = -1 /\ n' = 0 /\ UNCHANGED <<h, last>>
         /\ \E k \in Pick(Kinds) : \E m \in Pick(Methods(k)), lin \in Pick(BOOLEAN), dt \in Pick({1, 2, 4}), dm \in Pick(IF k = "rke" THEN {1, 2} ELSE {1}),
               al \in Pick(BOOLEAN) : \E ics \in Pick(IF k \in {"ab", "am"} THEN 1..OrderOf(m) ELSE {1}) :
               c' = Choose(k, m, lin, dt, dm, ics, al)
         /\ st' = Start'
Ests(a) == LET p == Order IN
  IF c.kind # "rke" THEN {<<>>}
  ELSE {<<>>, <<0>>, <<1>>, <<3, 0>>, <<1, 2, 1, 1, 1>>} \cup (IF a.dt < 4 THEN {<<-(p + 1)>>, <<1, -(p + 1)>>} ELSE {<<1, 1>>, <<4, 1, 0>>})
Step(ests, fk) ==
  LET a == Advance(st) IN \E r \in {TLCEval(Solve(a.s, ests))} :
     /\ st' = IF fk = 0 THEN r.s ELSE st
     /\ last' = [ok |-> r.ok /\ fk = 0, ev |-> r.ev, err |-> r.err]
     /\ h' = Append(h, <<"S", fk, ests>>)
     /\ n' = (IF fk = 0 /\ r.ok THEN n + 1 ELSE 99)
Again == /\ st' = Restart(st) /\ h' = Append(h, <<"R", 0, <<>>>>) /\ last' = [last EXCEPT !.ev = <<>>] /\ n' = n + 1
MCNext == Setup \/
          /\ n \in 0..(Depth - 1) /\ UNCHANGED c
          /\ \/ \E ests \in Pick(Ests(st)), fk \in (IF Sim THEN (IF RandomElement(1..12) = 1 THEN Pick(1..30) ELSE {0}) ELSE {0}) : Step(ests, fk)
             \/ (IF Sim THEN RandomElement(1..6) = 1 ELSE \A i \in 1..Len(h) : h[i][1] # "R") /\ Again
MCSpec == MCInit /\ [][MCNext]_<<c, st, n, h, last>>
Hidden == <<c, st, n, last>>
\* what is integrated when f is a polynomial in t
Unit == IF c.kind \in {"ab", "am"} THEN 104 ELSE 26
Moment(k, m) == Sum([e \in 1..Len(k) |-> IF k[e] = 0 THEN 0 ELSE k[e] * Pow(st.times[e] \div Unit, m)])
UsedP == IF c.kind \in {"ab", "am"} THEN st.p ELSE Tab(c.meth).p
Quadrature == (n < 99 /\ st.step > 0 /\ c.meth # "fehlberg") =>
                \A m \in 0..(UsedP - 1) : (m + 1) * (104 \div Unit) * Moment(st.u.k, m) = Tab(c.meth).D * Pow(st.t \div Unit, m + 1)
Total == (n < 99 /\ st.step > 0 /\ c.meth = "fehlberg") => LET x == Sum(st.u.k) - 10000000 * (st.t \div 104) IN x \in -60..60
BoundaryValue == n < 99 => st.u.bc = (IF Implicit THEN 0 ELSE G(st.t))
\* nothing but the evaluations within the step, at times within the step (multi-step: at earlier steps)
InStep == (last.ev # <<>> /\ n < 99 /\ c.kind \in {"rk", "rke"}) => \A i \in 1..Len(last.ev) : Len(last.ev[i].k) <= st.ne - 1
\* the constant operator is assembled exactly once, first
Once == (c.lin /\ ~Implicit /\ last.ev # <<>>) => Cardinality({i \in 1..Len(last.ev) : last.ev[i].new}) <= 1 /\ st.asmd
Estimates == \A i \in 1..Len(last.err) : LET x == Sum(last.err[i].k) IN x \in -60..60      \* consistent formulas differ by zero for constant f
NotSmaller == c.kind = "rke" => st.dt >= 1
Emit == IF n >= Depth THEN PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>) ELSE TRUE
=============================================================================
