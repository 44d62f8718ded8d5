---------------------------- MODULE MCTimeStep ----------------------------
(* Exhaustive exploration with small schemes. *)
EXTENDS TimeStep, TLC, Json

CONSTANT Depth, Big
VARIABLE n, h

Seg(d, e) == [d |-> d, e |-> e]
Base == [start |-> 0, stop |-> 64, segs |-> <<>>, dt0 |-> 16, dtMin |-> 16, dtMax |-> 16, f1h |-> 3, f2d |-> 4,
         maxStep |-> 0, maxCFL |-> 0, nInit |-> 0]
S(start, segs, dtMin, dtMax, f1h, f2d, maxStep) ==
  [Base EXCEPT !.start = start, !.segs = segs, !.dtMin = dtMin, !.dtMax = dtMax, !.f1h = f1h, !.f2d = f2d, !.maxStep = maxStep]
Schemes == {
  [Base EXCEPT !.dtMin = 2],
  [Base EXCEPT !.dt0 = 24, !.dtMin = 4, !.dtMax = 64, !.f1h = 4, !.f2d = 2],
  [Base EXCEPT !.start = 16, !.dt0 = 20, !.dtMin = 1, !.dtMax = 0, !.maxStep = 3],
  [Base EXCEPT !.maxCFL = 32, !.f1h = 4, !.nInit = 1, !.dtMin = 1],
  S(0,  <<Seg(<<16>>, 40), Seg(<<32>>, 96)>>, 2, 0, 3, 4, 0),
  S(16, <<Seg(<<16, 8>>, 40), Seg(<<32, 16, 4>>, 96)>>, 2, 0, 3, 1, 0),
  S(16, <<Seg(<<16, 8>>, 48), Seg(<<32>>, 96), Seg(<<8>>, 112)>>, 4, 64, 4, 2, 0),
  S(8,  <<Seg(<<16, 32, 8>>, 72)>>, 1, 0, 2, 2, 4),
  S(0,  <<Seg(<<64>>, 16), Seg(<<4, 60>>, 32)>>, 1, 32, 4, 4, 0) }

Iters == IF Big THEN {1, 5, 11} ELSE {2, 11}
MCInit == \E sc \in Schemes : Init(sc) /\ n = 0 /\ h = <<>>
Log(e) == h' = Append(h, e) /\ n' = n + 1
DoInc == Increment /\ Log(<<"inc">>)
DoIt(k) == open /\ s.it # k /\ Iterate(k) /\ Log(<<"it", k>>)
DoCFL(v) == c.maxCFL > 0 /\ s.cfl # v /\ SetCFL(v) /\ Log(<<"cfl", v>>)
DoCut == Cutback /\ Log(<<"cut">>)
DoSave == saved # s /\ Save /\ Log(<<"save">>)
DoRestore == saved # s /\ Restore /\ Log(<<"restore">>)
DoCopy == Copy /\ Log(<<"copy">>)
DoReset(k) == (HasSegs(c) => Reset(c, s, k).ok) /\ HasSegs(c) /\ ResetTo(k) /\ Log(<<"reset", k>>)
DoClear == s.first # 0 /\ open /\ ClearFirst /\ Log(<<"clear">>)
MCNext == n < Depth /\ (DoInc \/ (\E k \in Iters : DoIt(k)) \/ (\E v \in {1, 8} : DoCFL(v)) \/ DoCut \/ DoSave \/ DoRestore \/ DoCopy
                          \/ (\E k \in {0, 2} : DoReset(k)) \/ DoClear)
MCSpec == MCInit /\ [][MCNext]_<<c, s, saved, open, n, h>>
Hidden == <<c, s, saved, open>>
Emit == n = Depth => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
