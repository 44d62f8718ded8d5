---------------------------- MODULE GenDynamics ----------------------------
(* Behaviours of the time integrators with the loads which lead to them, as scenarios for the implementation *)
EXTENDS MCDynamics, Json
VARIABLES c, h
GVars == <<m, pred, disp, s0, cur, tmp, inc, dt, it, n, f0, en, c, h>>
Bound == 1500000
Some(S) == {RandomElement(S)}
GInit == /\ c = <<>> /\ m = <<>> /\ pred = "a" /\ disp = FALSE
         /\ s0 = Ini /\ cur = s0 /\ tmp = s0 /\ inc = Zero /\ dt = 0 /\ it = -2 /\ n = 0 /\ f0 = <<>> /\ en = TRUE /\ h = <<>>
Choose == /\ it = -2 /\ it' = -1
          /\ \E sch \in Some(Schemes) : c' \in Some({x \in Cfg : x.scheme = sch})
          /\ m' = Method(c')
          /\ pred' \in Some(IF m'.scheme \in {"N", "G"} THEN {"a", "v"} ELSE {"d"}) /\ disp' \in Some(IF m'.scheme = "N" THEN BOOLEAN ELSE {m'.scheme # "G"})
          /\ UNCHANGED <<s0, cur, tmp, inc, dt, n, f0, en, h>>
GNext == \/ Choose
         \/ Size(s0) <= Bound /\ Predict /\ UNCHANGED <<c, h>>
         \/ it < Corrections /\ Correct /\ UNCHANGED <<c, h>>
         \/ it = Corrections /\ Accept /\ h' = Append(h, <<dt, <<f0'[1] \div 10, f0'[2] \div 10>>>>) /\ c' = c
         \/ Size(s0) <= Bound /\ it = -1 /\ n > 0 /\ n < Steps /\ (h[Len(h)] # <<>>) /\ RandomElement(1..3) = 1 /\ h' = Append(h, <<>>) /\ UNCHANGED <<m, pred, disp, s0, cur, tmp, inc, dt, it, n, f0, en, c>>
GSpec == GInit /\ [][GNext]_GVars
Dump == it = -1 /\ n > 0 /\ h[Len(h)] # <<>> /\ (n = Steps \/ Size(s0) > Bound) => PrintT(<<"SCN", ToJson([c |-> c, pred |-> pred, disp |-> disp, h |-> h])>>)
=============================================================================
