---------------------------- MODULE ControlTrace ----------------------------
EXTENDS Control, VF
VARIABLES t, i
vars == <<pipe, reg, open, got, t, i>>
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin" /\ Empty
Step ==
  LET e == Ev IN
  CASE e.op = "open" -> IF e.possible THEN Same2("opened", <<e.ok, e.file>>, <<TRUE, TRUE>>) /\ Open ELSE Same2("opened", <<e.ok, e.file>>, <<FALSE, FALSE>>) /\ UNCHANGED <<pipe, reg, open, got>>
    [] e.op = "close" -> Same2("file is left", e.file, FALSE) /\ open' = FALSE /\ pipe' = <<>> /\ reg' = <<>> /\ UNCHANGED got
    [] e.op = "reg" -> Register(e.id, e.ctx)
    [] e.op = "send" -> IF open THEN Same2("sent", e.ok, TRUE) /\ Send([good |-> e.good, cmds |-> e.cmds]) ELSE UNCHANGED <<pipe, reg, open, got>>
    [] e.op = "poll" -> (IF ~open THEN Same2("delivered", e.got, <<>>) ELSE IF Clean THEN Same2("delivered", e.got, Delivered) ELSE IF Allowed(e.got) THEN TRUE ELSE Mismatch(t, i + 1, <<"delivered", e.got>>, "nothing")) /\ Poll(e.got)
    [] e.op = "end" -> UNCHANGED <<pipe, reg, open, got>>
TNext == /\ i < Len(Traces[t].s)
         /\ Step
         /\ i' = i + 1 /\ UNCHANGED t
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
