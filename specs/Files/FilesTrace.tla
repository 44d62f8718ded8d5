---------------------------- MODULE FilesTrace -----------------------------
(* Recorded operations on restart and result files *)
EXTENDS Files, VF
VARIABLES rf, df,   \* the restart and the result files
          h, w,     \* the handlers and the writers
          t, i
vars == <<rf, df, h, w, t, i>>
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Three == [f \in 0..2 |-> Absent]
None == <<0, 0>>
ToMap(d) == TLCEval([k \in {d[n][1] : n \in 1..Len(d)} |-> d[CHOOSE n \in 1..Len(d) : d[n][1] = k][2]])
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ rf = Three /\ df = Three /\ h = None /\ w = None
RNew(e) == /\ Same2("first level", e.r, e.lev0 - 1)
           /\ h' = [h EXCEPT ![e.k] = Handler(e.f, e.stride, e.lev0)] /\ UNCHANGED <<rf, df, w>>
RDue(e) == /\ Same2("due", e.r, Due(h[e.k], e.step))
           /\ h' = [h EXCEPT ![e.k] = Dumped(@, e.step)] /\ UNCHANGED <<rf, df, w>>
RWrite(e) == LET x == Write(rf[h[e.k].f], h[e.k], ToMap(e.d)) IN
             /\ Same2("written", e.r, x.ok) /\ Same2("level", e.lev, x.h.lev)
             /\ rf' = [rf EXCEPT ![h[e.k].f] = x.file] /\ h' = [h EXCEPT ![e.k] = x.h] /\ UNCHANGED <<df, w>>
RRead(e) == LET x == Read(rf[h[e.k].f], e.lev, e.basis, IF e.pre < 0 THEN <<>> ELSE (0 :> e.pre)) IN
            /\ Same2("level read", e.r, x.r) /\ Same2("data read", ToMap(e.d), x.d)
            /\ UNCHANGED <<rf, df, h, w>>
Break(e) == /\ IF e.rst THEN Same2("file exists", e.there, rf[e.f].st # "absent") /\ rf' = [rf EXCEPT ![e.f] = Damage(@, e.kind)] /\ df' = df
               ELSE Same2("file exists", e.there, df[e.f].st # "absent") /\ df' = [df EXCEPT ![e.f] = Damage(@, e.kind)] /\ rf' = rf
            /\ UNCHANGED <<h, w>>
WNew(e) == /\ Same2("file name", e.name, TRUE)
           /\ w' = [w EXCEPT ![e.k] = Writer(e.f, e.app, df[e.f])] /\ UNCHANGED <<rf, df, h>>
WLast(e) == Same2("last level", e.r, LastLevel(w[e.k], df[w[e.k].f])) /\ UNCHANGED <<rf, df, h, w>>
WLevel(e) == /\ df' = [df EXCEPT ![w[e.k].f] = SaveLevel(w[e.k], @, e.lev, e.fs, e.time)]
             /\ w' = [w EXCEPT ![e.k] = Closed(@)] /\ UNCHANGED <<rf, h>>
WLog(e) == /\ df' = [df EXCEPT ![w[e.k].f] = SaveLog(w[e.k], @, e.v)]
           /\ w' = [w EXCEPT ![e.k] = Closed(@)] /\ UNCHANGED <<rf, h>>
\* real numbers are cut to integers, and what has no integer counterpart is up to the library
Plain(x) == x < 10
Get(e) == LET f == Found(df[e.f], e.lev, e.n)
              some == f # <<>> /\ (IF f = <<>> THEN FALSE ELSE f[1].v # <<>>) IN
          /\ Same2("found", e.r, some)
          /\ Same2("number of patches", e.size, Len(f))
          /\ IF ~some THEN Same2("data not found", e.v, <<9>>)
             ELSE /\ Same2("size", Len(e.v), Len(f[1].v))
                  /\ \A k \in 1..Len(e.v) : Plain(f[1].v[k]) \/ f[1].int = e.int => Same2("value", e.v[k], f[1].v[k])
          /\ UNCHANGED <<rf, df, h, w>>
Tim(e) == LET f == Found(df[e.f], e.lev, TimeKey) IN
          /\ Same2("time found", e.r, f # <<>>) /\ Same2("time", e.v, IF f = <<>> THEN 9 ELSE f[1].v[1])
          /\ UNCHANGED <<rf, df, h, w>>
\* an empty text may be reported as missing
Str(e) == /\ (df[e.f].log # 0 => Same2("text found", e.r, df[e.f].log > 0) /\ Same2("text", e.v, IF df[e.f].log > 0 THEN df[e.f].log ELSE 3))
          /\ UNCHANGED <<rf, df, h, w>>
TNext == /\ i < Len(Traces[t].s) /\ i' = i + 1 /\ t' = t
         /\ LET e == Ev IN
            /\ CASE e.op = "new" -> RNew(e)
                 [] e.op = "due" -> RDue(e)
                 [] e.op = "wr" -> RWrite(e)
                 [] e.op = "rd" -> RRead(e)
                 [] e.op = "bad" -> Break(e)
                 [] e.op = "wnew" -> WNew(e)
                 [] e.op = "last" -> WLast(e)
                 [] e.op = "lev" -> WLevel(e)
                 [] e.op = "log" -> WLog(e)
                 [] e.op = "get" -> Get(e)
                 [] e.op = "tim" -> Tim(e)
                 [] e.op = "str" -> Str(e)
            /\ Same2("files left open", e.open, 0)
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
