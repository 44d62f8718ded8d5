------------------------------ MODULE TimeStep ------------------------------
(***************************************************************************)
(* The time stepper: a state machine over exact (integer) time units.      *)
(*                                                                         *)
(* A scheme c is a record                                                  *)
(*   start, stop   start and stop time                                     *)
(*   segs          sequence of [d |-> increments, e |-> end time]          *)
(*   dt0           increment when there are no segments                    *)
(*   dtMin, dtMax  limits of the adaptive increment                        *)
(*   f1h           twice the enlargement factor f1                         *)
(*   f2d           denominator of the reduction factor f2 = 1/f2d          *)
(*   maxStep       maximum number of steps, 0 = no limit                   *)
(*   maxCFL, nInit CFL limit (time units, 0 = off) and number of steps     *)
(*                 before it is applied                                    *)
(* The state of a stepper is the record built by Initial.  The operations  *)
(* are functions from states to states, the actions apply them.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES c,      \* the scheme
          s,      \* the stepper
          saved,  \* archived state of an earlier stepper (crash point), or NoSave
          open    \* TRUE while the last step has not been accepted (cut-back is possible)

NoSave == [none |-> TRUE]

HasSegs(sc) == Len(sc.segs) > 0
StopTime(sc) == IF HasSegs(sc) THEN sc.segs[Len(sc.segs)].e ELSE sc.stop
FirstDt(sc) == IF HasSegs(sc) THEN sc.segs[1].d[1] ELSE sc.dt0

\* seg: segment of the current step; loc: number of increments taken in that segment
Initial(sc) == [step |-> 0, t |-> sc.start, dt |-> FirstDt(sc), dtn |-> 0, it |-> 0, nit |-> 0,
                seg |-> 1, loc |-> 0, cfl |-> 0, maxCFL |-> sc.maxCFL, first |-> 1]

Reached(st, x) == st.t >= x

InSeg(sc, st) == st.seg <= Len(sc.segs)
\* the step just taken has completed its segment, so the next one belongs to the next segment
Completed(sc, st) == InSeg(sc, st) /\ st.step > 0 /\ Reached(st, sc.segs[st.seg].e)
Shift(sc, st) == IF Completed(sc, st) THEN [st EXCEPT !.seg = @ + 1, !.loc = 0] ELSE st

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

CflActive(st) == st.maxCFL > 0 /\ st.cfl > 0

\* the size of the next increment and what it does to the bookkeeping
Predict(sc, st) ==
  LET a == [Shift(sc, st) EXCEPT !.dtn = st.dt]
      b == IF CflActive(a) THEN
             IF a.step > sc.nInit THEN
               LET d == (4 * a.maxCFL) \div a.cfl
               IN  IF 2*d > a.dt * sc.f1h THEN [a EXCEPT !.dt = (@ * sc.f1h) \div 2]
                   ELSE [a EXCEPT !.dt = d, !.maxCFL = (@ * sc.f1h) \div 2]
             ELSE a
           ELSE IF InSeg(sc, a) THEN
             LET l == a.loc + 1
             IN  [a EXCEPT !.loc = l, !.dt = IF l <= Len(sc.segs[a.seg].d) THEN sc.segs[a.seg].d[l] ELSE @]
           ELSE a
  IN  IF sc.dtMin < sc.dtMax /\ b.maxCFL = 0 /\ b.step > 1 THEN
        LET d1 == IF b.it <= 4 /\ b.nit <= 4 THEN (b.dt * sc.f1h) \div 2
                  ELSE IF b.it > 10 THEN b.dt \div sc.f2d ELSE b.dt
        IN  [b EXCEPT !.dt = IF d1 < sc.dtMin THEN sc.dtMin ELSE IF d1 > sc.dtMax THEN sc.dtMax ELSE d1]
      ELSE b

CanStep(sc, st) == ~Reached(st, StopTime(sc)) /\ (sc.maxStep > 0 => st.step < sc.maxStep)

\* one step: never beyond the end of the segment, nor beyond the stop time
Stepped(sc, st) ==
  LET p == Predict(sc, st)
      lim == IF InSeg(sc, p) THEN Min(sc.segs[p.seg].e, StopTime(sc)) ELSE StopTime(sc)
      d == Min(p.dt, lim - st.t)
  IN  [p EXCEPT !.step = @ + 1, !.nit = st.it, !.dt = d, !.t = @ + d]

\* the result of asking for a step: a refused step only alters the predicted increment
Inc(sc, st) == IF CanStep(sc, st) THEN Stepped(sc, st) ELSE Predict(sc, st)

CanCut(sc, st) == st.dt > sc.dtMin
CutDt(sc, st) == Max(st.dt \div (IF sc.f2d > 1 THEN sc.f2d ELSE 2), sc.dtMin)
Cut(sc, st) == [st EXCEPT !.dt = CutDt(sc, st), !.t = @ + CutDt(sc, st) - st.dt, !.it = 0, !.nit = 10, !.first = 2]

\* re-initialisation to a given step number: without segments only the step counter is known
RECURSIVE Replay(_, _, _)
Replay(sc, st, n) == IF n = 0 THEN [ok |-> TRUE, st |-> st]
                     ELSE IF CanStep(sc, st) THEN Replay(sc, Stepped(sc, st), n - 1)
                     ELSE [ok |-> FALSE, st |-> Predict(sc, st)]
Reset(sc, st, n) ==
  IF ~HasSegs(sc) THEN [ok |-> TRUE, st |-> [st EXCEPT !.step = n]]
  ELSE Replay(sc, [st EXCEPT !.step = 0, !.loc = 0, !.seg = 1, !.dt = FirstDt(sc), !.dtn = 0, !.t = sc.start, !.cfl = 0], n)

\* what an archive of the state must bring back: everything which affects the future
Restored(sc, st) == Shift(sc, st)

-----------------------------------------------------------------------------
Init(sc) == c = sc /\ s = Initial(sc) /\ saved = NoSave /\ open = FALSE

Increment == /\ s' = Inc(c, s)
             /\ open' = CanStep(c, s)
             /\ UNCHANGED <<c, saved>>
Iterate(n) == s' = [s EXCEPT !.it = n] /\ UNCHANGED <<c, saved, open>>
SetCFL(v) == s' = [s EXCEPT !.cfl = v] /\ UNCHANGED <<c, saved, open>>
Cutback == /\ open
           /\ s' = IF CanCut(c, s) THEN Cut(c, s) ELSE s
           /\ UNCHANGED <<c, saved, open>>
Save == saved' = s /\ UNCHANGED <<c, s, open>>
\* a new stepper, configured alike, takes over from the archive
Restore == /\ saved # NoSave
           /\ s' = Restored(c, saved)
           /\ open' = FALSE
           /\ UNCHANGED <<c, saved>>
Copy == UNCHANGED <<c, s, saved, open>>
ResetTo(n) == /\ s' = Reset(c, s, n).st
              /\ open' = FALSE
              /\ UNCHANGED <<c, saved>>
ClearFirst == s' = [s EXCEPT !.first = 0] /\ UNCHANGED <<c, saved, open>>

-----------------------------------------------------------------------------
(* The properties *)
InRange == s.t >= c.start /\ s.t <= StopTime(c)
Consistent == s.step >= 0 /\ (open => s.dt > 0)
\* the bookkeeping agrees with the time: all earlier segments are complete, later ones not begun
SegmentOK == \A k \in 1..Len(c.segs) :
               /\ k < s.seg => c.segs[k].e <= s.t
               /\ k > s.seg => c.segs[k].e > s.t
MaxStepOK == c.maxStep > 0 => s.step <= c.maxStep

\* a step advances the counter by one, the time by the increment, and jumps over no segment end
IncOK == CanStep(c, s) =>
           LET n == Inc(c, s)
           IN  /\ n.step = s.step + 1
               /\ n.t = s.t + n.dt
               /\ n.dt > 0
               /\ n.dtn = s.dt
               /\ \A k \in 1..Len(c.segs) : ~(s.t < c.segs[k].e /\ c.segs[k].e < n.t)
DoneOK == ~CanStep(c, s) => (s.t = StopTime(c) \/ (c.maxStep > 0 /\ s.step >= c.maxStep))
\* a cut-back restarts the step from where it started, with a smaller increment
CutOK == (open /\ CanCut(c, s)) =>
           LET n == Cut(c, s)
           IN  n.t - n.dt = s.t - s.dt /\ n.dt < s.dt /\ n.dt >= c.dtMin /\ n.step = s.step
\* the prescribed increments are used unless something has reduced or adapted them
Plain(sc) == sc.maxCFL = 0 /\ sc.dtMin >= sc.dtMax
PrescribedOK == (Plain(c) /\ CanStep(c, s)) =>
    LET a == Shift(c, s)
        n == Inc(c, s)
    IN  InSeg(c, a) /\ a.loc < Len(c.segs[a.seg].d) =>
            n.dt = Min(c.segs[a.seg].d[a.loc + 1], c.segs[a.seg].e - s.t)
\* restoring is exact: the future of the restored stepper is that of the saved one
Obs(st) == [step |-> st.step, t |-> st.t, dt |-> st.dt, dtn |-> st.dtn, first |-> st.first, it |-> st.it]
RestoreOK == saved # NoSave =>
    /\ Obs(Restored(c, saved)) = Obs(saved)
    /\ Inc(c, Restored(c, saved)) = Inc(c, saved)
    /\ CanStep(c, Restored(c, saved)) = CanStep(c, saved)
\* rewinding to a step reproduces the prescribed instant of that step, whatever happened in between
RewindOK == (HasSegs(c) /\ Plain(c)) => \A n \in 0..2 : Reset(c, s, n).st.t = Replay(c, Initial(c), n).st.t
=============================================================================
