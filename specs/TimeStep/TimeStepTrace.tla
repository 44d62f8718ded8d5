--------------------------- MODULE TimeStepTrace ---------------------------
(* Recorded executions of the implementation are behaviours of TimeStep. *)
EXTENDS TimeStep, VF

VARIABLES t, i

\* What the input file says: a number of steps, a list of increments, or a geometric grading
Count(sg, from) == <<(sg.e - from) \div sg.n>>
RECURSIVE Graded(_, _, _, _)
Graded(T, dt, sg, num) == \* num = end - start - (first - last), the ratio times end - start
  IF T >= sg.e THEN <<>>
  ELSE LET d == (dt * num[1]) \div num[2]
       IN  <<IF T + d <= sg.e THEN d ELSE sg.e - T>> \o Graded(T + d, d, sg, num)
Incs(sg, from) ==
  IF sg.n > 0 THEN Count(sg, from)
  ELSE IF sg.graded = 1 /\ Len(sg.d) = 2 THEN
    LET L == sg.e - from
    IN  <<sg.d[1]>> \o Graded(from + sg.d[1], sg.d[1], sg, <<L - (sg.d[1] - sg.d[2]), L>>)
  ELSE sg.d
Scheme(cc) == [cc EXCEPT !.segs = [k \in 1..Len(cc.segs) |->
                 [d |-> Incs(cc.segs[k], IF k = 1 THEN cc.start ELSE cc.segs[k-1].e), e |-> cc.segs[k].e]]]

Ev == Traces[t].s[i + 1]
Seen(e, st, sc) ==
  /\ e.step = st.step /\ e.t = st.t /\ e.dt = st.dt /\ e.dtn = st.dtn /\ e.it = st.it /\ e.first = st.first
  /\ e.start = sc.start /\ e.stop = StopTime(sc) /\ e.mcfl = st.maxCFL
  /\ e.fin = (Reached(st, StopTime(sc)) \/ (sc.maxStep > 0 /\ st.step >= sc.maxStep))
  /\ e.multi = (sc.start + st.dt < StopTime(sc))

TInit == /\ t \in 1..Len(Traces)
         /\ i = 1
         /\ Init(Scheme(Traces[t].c))
         /\ Traces[t].s[1].op = "begin" /\ Traces[t].s[1].ok /\ Seen(Traces[t].s[1], s, c)

Act(e) ==
  CASE e.op = "inc"     -> e.ok = CanStep(c, s) /\ Increment
    [] e.op = "cut"     -> e.ok = CanCut(c, s) /\ Cutback
    [] e.op = "it"      -> Iterate(e.n)
    [] e.op = "cfl"     -> SetCFL(e.n)
    [] e.op = "clear"   -> ClearFirst
    [] e.op = "save"    -> e.ok /\ Save
    [] e.op = "restore" -> e.ok /\ Restore
    [] e.op = "copy"    -> Copy
    [] e.op = "assign"  -> Copy
    [] e.op = "reset"   -> e.ok = Reset(c, s, e.n).ok /\ ResetTo(e.n)
    [] e.op = "probe"   -> e.ok = (IF e.n = 0 THEN TRUE ELSE Reached(s, e.n)) /\ Copy
    [] OTHER -> FALSE

\* the properties of the specification, evaluated along the trace where they say something
Good(op) == /\ InRange /\ Consistent /\ SegmentOK
            /\ op = "inc" => IncOK /\ DoneOK /\ PrescribedOK
            /\ op = "cut" => CutOK
\* the exact arithmetic of this specification covers the next operation
Exact(e) ==
  \/ e.op = "cut" /\ s.dt % 4 = 0
  \/ e.op \in {"inc", "reset", "restore"} /\ (Plain(c) \/ (s.dt % 4 = 0 /\ s.maxCFL % 2 = 0 /\
       (s.cfl > 0 => (4*s.maxCFL) % s.cfl = 0 /\ ((4*s.maxCFL) \div s.cfl) % 4 = 0)))
  \/ e.op \notin {"cut", "inc", "reset", "restore"}
Stop == i < Len(Traces[t].s) /\ ~Exact(Ev) /\ Done(t) /\ PrintT(<<"INEXACT", t>>) /\ i' = 1000000 /\ UNCHANGED <<c, s, saved, open, t>>
Match ==
         /\ i < Len(Traces[t].s)
         /\ Exact(Ev)
         /\ Good(Ev.op)
         /\ LET e == Ev IN
            /\ Act(e)
            /\ IF Seen(e, s', c) THEN TRUE ELSE Mismatch(t, i + 1, e, s')
         /\ i' = i + 1 /\ t' = t
         /\ (i' = Len(Traces[t].s) => Done(t))
TNext == Stop \/ Match
TSpec == TInit /\ [][TNext]_<<c, s, saved, open, t, i>>
=============================================================================
