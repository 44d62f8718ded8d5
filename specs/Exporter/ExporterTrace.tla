--------------------------- MODULE ExporterTrace ---------------------------
EXTENDS Exporter, VF
VARIABLES s, lost, file, t, i
vars == <<s, lost, file, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ s = New(Traces[t].c.stride, Traces[t].c.lev0) /\ lost = FALSE /\ file = {}
Mine(ev, k) == SelectSeq(ev, LAMBDA e : e.w = k)
Field(st, n, l, geo, time) ==
  LET f == st.fld[n]   k == Kind(f.ty) IN
  [k |-> k, l |-> l, n |-> n, on |-> f.on, v |-> f.v, geo |-> IF k = "sim" THEN 2 * time + (IF geo THEN 1 ELSE 0) ELSE 0, res |-> f.res,
   pre |-> f.pre, nc |-> f.nc]
Got(e) == [k |-> e.k, l |-> e.l, n |-> e.n, on |-> e.on, v |-> e.v, geo |-> e.geo, res |-> e.res, pre |-> e.pre, nc |-> e.nc]
\* opened, each field once in any order, the time if there are several steps, closed
One(q, l, e, k) ==
  LET W == Written(s)
      tm == e.step >= 0 /\ e.multi
      n == Cardinality(W)
      time == IF e.step < 0 THEN 0 ELSE e.time
  IN /\ Same2(<<"requests to writer", k>>, Len(q), n + (IF tm THEN 3 ELSE 2))
     /\ Same2("opened", <<q[1].k, q[1].l>>, <<"open", l>>)
     /\ Same2("fields", {Got(q[j]) : j \in 2..(n + 1)}, {Field(s, f, l, Geo(s, e.step, e.geo), time) : f \in W})
     /\ (tm => Same2("time", <<q[n + 2].k, q[n + 2].l, q[n + 2].t>>, <<"time", l, e.time>>))
     /\ Same2("closed", <<q[Len(q)].k, q[Len(q)].l>>, <<"close", l>>)
\* all writers one after the other
Ordered(ev) == \A a \in 2..Len(ev) : ev[a].w >= ev[a - 1].w
Bases == IF C.nw = 0 THEN {-1} ELSE {C.last[k] : k \in 1..C.nw} \cup (IF C.real THEN {-1} ELSE {})
DumpOp(e) ==
  IF ~Due(s, e.step) THEN /\ Same2("not due", e.r, TRUE) /\ Same2("nothing written", e.ev, <<>>) /\ Same2("level", e.lev, s.lev) /\ UNCHANGED <<s, file>>
  ELSE IF ~Defined(s) /\ (C.nw > 0 \/ C.real) THEN /\ Same2("undefined field", e.r, FALSE) /\ Same2("nothing written", e.ev, <<>>) /\ Same2("level", e.lev, s.lev) /\ UNCHANGED <<s, file>>
  ELSE /\ Same2("exported", e.r, TRUE)
       /\ Same2("next level", <<e.lev, e.lev \in {Dump(s, e.step, b).lev : b \in Bases}>>, <<e.lev, TRUE>>)
       /\ \A k \in 1..C.nw : One(Mine(e.ev, k), e.lev, e, k)
       /\ Same2("one writer at a time", Ordered(e.ev), TRUE)
       /\ s' = [Dump(s, e.step, -1) EXCEPT !.lev = e.lev]
       /\ file' = IF C.real THEN file \cup {<<e.lev, n, s.fld[n].ty, s.fld[n].v[1]>> : n \in {m \in DOMAIN s.fld : s.fld[m].on /\ s.fld[m].ty \in {0, 1}}}
                             \cup (IF e.step >= 0 /\ e.multi THEN {<<e.lev, 4, 0, e.time>>} ELSE {})
                  ELSE file
Range(q) == {q[k] : k \in 1..Len(q)}
TNext == /\ i < Len(Traces[t].s) /\ i' = i + 1 /\ t' = t /\ lost' = lost
         /\ LET e == Ev IN
            CASE e.op = "reg" -> /\ Same2("registered", e.r, e.n \notin DOMAIN s.fld)
                                 /\ s' = Register(s, e.n, e.ty, e.res, e.pre, e.nc) /\ file' = file
              [] e.op = "val" -> /\ Same2("known", e.r, e.n \in DOMAIN s.fld)
                                 /\ s' = Set(s, e.n, e.v, e.v2) /\ file' = file
              [] e.op = "ctl" -> /\ s' = CASE e.what = 2 -> [s EXCEPT !.stride = e.n] [] OTHER -> Enable(s, e.n, e.what = 0)
                                 /\ Same2("stride", e.r, s'.stride) /\ file' = file
              [] e.op = "dump" -> DumpOp(e)
              [] e.op = "file" -> Same2("file", Range(e.d), file) /\ UNCHANGED <<s, file>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
