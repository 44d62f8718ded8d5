------------------------------ MODULE Exporter ------------------------------
(* Export of registered fields to all registered writers, one time level after the other *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Once(res) == (IF res < 0 THEN 0 - res ELSE res) \div 32 % 2 = 1
New(stride, level0) == [fld |-> <<>>, stride |-> stride, lev |-> level0 - 1, last |-> -1]
\* registering the same name twice is refused
Register(s, n, ty, res, pre, nc) ==
  IF n \in DOMAIN s.fld THEN s
  ELSE [s EXCEPT !.fld = Put(@, n, [ty |-> ty, res |-> res, pre |-> pre, nc |-> nc, on |-> TRUE, v |-> <<None>>])]
Set(s, n, v, v2) == IF n \in DOMAIN s.fld THEN [s EXCEPT !.fld[n].v = <<v, v2, v2, None>>] ELSE s
Enable(s, n, on) == IF n \in DOMAIN s.fld THEN [s EXCEPT !.fld[n].on = on] ELSE s
Max(x, y) == IF x < y THEN y ELSE x
\* steps are counted from the last one which was exported; without time stepping, and for the initial state, always
Due(s, step) == step <= 0 \/ step >= Max(0, s.last) + s.stride
\* a field without a value can not be exported, and then nothing is
Defined(s) == \A n \in DOMAIN s.fld : s.fld[n].v[1] # None
\* the geometry is always a part of the first export
Geo(s, step, geo) == geo \/ (IF step >= 0 THEN s.last < 0 ELSE s.lev < 0)
Kind(ty) == CASE ty \in {0, 1} -> "vec" [] ty = 2 -> "knot" [] ty = 3 -> "sim" [] ty = 4 -> "nod" [] ty = 5 -> "basis" [] OTHER -> "none"
Written(s) == {n \in DOMAIN s.fld : Kind(s.fld[n].ty) # "none"}
\* levels: the possible numbers of the first level, when it depends on what the writers have from before
Dump(s, step, base) ==
  LET l == (IF step < 0 /\ s.lev < 0 THEN base ELSE s.lev) + 1 IN
  [s EXCEPT !.lev = l, !.last = IF step < 0 THEN @ ELSE step,
            !.fld = TLCEval([n \in DOMAIN @ |-> [@[n] EXCEPT !.on = @ /\ ~Once(s.fld[n].res)]])]
=============================================================================
