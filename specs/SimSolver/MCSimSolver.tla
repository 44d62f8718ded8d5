----------------------------- MODULE MCSimSolver -----------------------------
(* All histories of runs of the drivers: any call may fail, a run may be interrupted at any call and be restarted from any state. *)
EXTENDS SimSolver, Json
CONSTANTS MaxRuns,   \* number of runs
          Kinds, CrashAt, Exhaustive
VARIABLES c, d, file, take,
          g, gs,     \* the steps behind the current solution, and behind the one saved for the refined mesh
          ex,        \* the exported results by level
          bad,       \* a failure which must be reported
          stop,      \* the solver wanted no further steps
          nf, n, cnt, cur, h
vars == <<c, d, file, take, g, gs, ex, bad, stop, nf, n, cnt, cur, h>>
View == <<c, d, file, take, g, gs, ex, bad, stop, nf, n>>
Seg(dd, e) == [d |-> dd, e |-> e]
Base == [kind |-> "sol", start |-> 0, segs |-> <<>>, stop |-> 32, dt0 |-> 8, maxStep |-> 0, div |-> FALSE,
         fwd |-> 1, prd |-> 1, mxp |-> 1, mxr |-> 1, pre |-> 0, aStart |-> -64]
Schemes == IF Exhaustive
  THEN {Base, [Base EXCEPT !.start = 32, !.segs = <<Seg(<<8, 16>>, 52), Seg(<<4>>, 60)>>, !.div = TRUE],
        [Base EXCEPT !.kind = "ts", !.stop = 24], [Base EXCEPT !.kind = "ts", !.stop = 24, !.fwd = 2, !.mxp = -2, !.mxr = 2, !.aStart = 8],
        [Base EXCEPT !.kind = "ts", !.mxp = 2, !.prd = 2, !.fwd = 2, !.pre = 1],
        [Base EXCEPT !.kind = "stat"], [Base EXCEPT !.kind = "adi"]}
  ELSE {[Base EXCEPT !.kind = k, !.start = a, !.stop = a + 48, !.segs = sg, !.maxStep = m, !.div = v, !.fwd = f, !.prd = p, !.mxp = x, !.mxr = y, !.pre = z, !.aStart = w] :
        k \in {"sol", "ts", "stat", "adi"}, a \in {0}, sg \in {<<>>, <<Seg(<<8, 16>>, 36), Seg(<<4, 8>>, 48)>>}, m \in {0, 4}, v \in BOOLEAN, f \in {1, 2, 3},
        p \in {1, 2}, x \in {1, 2, -1, -2}, y \in {1, 2}, z \in {0, 1}, w \in {-64, 20}}
Strides == IF Exhaustive THEN {<<1, 1>>, <<2, 2>>, <<1, 2>>, <<3, 2>>} ELSE {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 4>>, <<1, 3>>, <<3, 2>>, <<0, 0>>}
Failable == {"model", "save", "solve", "div", "irefine", "prefine", "init", "solvei", "norms", "enorm", "proj", "ser", "advance", "adapti"}
Silent == {"ser", "advance", "adapti"}
Name(pc) == IF pc = "advance" THEN "adv" ELSE IF pc = "sstate2" THEN "sstate" ELSE IF pc = "div" THEN "save" ELSE pc
Norm(sc) == IF sc.kind = "ts" THEN [sc EXCEPT !.div = FALSE]
            ELSE [sc EXCEPT !.fwd = 1, !.prd = 1, !.mxp = 1, !.mxr = 1, !.pre = 0, !.aStart = -64, !.segs = IF sc.kind = "sol" THEN @ ELSE <<>>]
Init == /\ c \in {Norm(x) : x \in {y \in Schemes : y.kind \in Kinds}} /\ d = [pc |-> "none"] /\ file = <<>> /\ take = -1 /\ g = <<>> /\ gs = <<>> /\ ex = <<>>
        /\ bad = FALSE /\ stop = FALSE /\ nf = 0 /\ n = 0 /\ cnt = <<>> /\ cur = <<>> /\ h = <<>>
\* behaviours are sampled with few failures
Rarely(k) == Exhaustive \/ RandomElement(1..k) = 1
Start(save, rst, from) ==
  /\ (from < 0 => Levels(file) = {} \/ Rarely(8))
  /\ d.pc \in {"none", "end"} /\ n < MaxRuns /\ n' = n + 1
  /\ (from >= 0 => Stepping(c) /\ Chosen(file, from) \in Levels(file))
  /\ d' = [New(c, save, rst, FALSE) EXCEPT !.mesh = IF from < 0 THEN 1 ELSE file[Chosen(file, from)].mesh,
                                           !.nref = IF from < 0 THEN 0 ELSE file[Chosen(file, from)].nref,
                                           !.pre = IF from >= 0 /\ file[Chosen(file, from)].nref > 0 THEN 0 ELSE @]
  /\ take' = IF from < 0 THEN -1 ELSE Chosen(file, from)
  /\ g' = <<>> /\ gs' = <<>> /\ bad' = FALSE /\ stop' = FALSE /\ nf' = 0 /\ cnt' = <<>>
  /\ ex' = IF from < 0 THEN <<>> ELSE ex
  /\ file' = IF from < 0 THEN <<>> ELSE file
  /\ cur' = [save |-> save, rst |-> rst, from |-> from, f |-> "-", k |-> 0, ad |-> <<>>]
  /\ h' = IF cur = <<>> THEN h ELSE Append(h, cur)
  /\ c' = c
\* the input is read; the mesh may be refined then
Read(r) ==
  /\ d.pc = "read"
  /\ LET pre == c.kind = "ts" /\ d.pre > 0 IN
     /\ (~pre => r = 1)
     /\ LET e == IF pre THEN IF r = 0 THEN [d EXCEPT !.pc = "end", !.ret = 9] ELSE Refine(d) ELSE d
            t == IF take < 0 THEN e ELSE Take(c, e, file[take]) IN
        d' = IF e.pc = "end" THEN e ELSE Settle(c, [t EXCEPT !.pc = "start"])
     /\ g' = IF take < 0 THEN <<>> ELSE file[take].g
     /\ nf' = nf + 1 - r /\ bad' = (r = 0)
     /\ cur' = IF r = 0 THEN [cur EXCEPT !.f = "prefine", !.k = 1] ELSE cur
  /\ UNCHANGED <<c, file, take, gs, ex, stop, n, cnt, h>>
Call(r, x) ==
  /\ d.pc \notin {"none", "end", "read"}
  /\ (r = 0 => d.pc = "adapt" \/ (d.pc \in Failable /\ nf = 0 /\ (d.pc = "advance" => c.kind = "sol")))
  /\ (r = 1 /\ d.pc = "adapti" => d.it <= 3)
  /\ (r = -1 => d.pc = "adapt" /\ nf = 0)
  /\ (r < 1 /\ d.pc # "adapt" => Rarely(40))
  /\ (x => Rarely(40))
  /\ (x => d.pc \in {"save", "div"} /\ nf = 0 /\ r = 1)
  /\ LET f == Name(d.pc)
         k == (IF f \in DOMAIN cnt THEN cnt[f] ELSE 0) + 1
         fl == x \/ (r < 1 /\ d.pc # "adapt") \/ r = -1 IN
     /\ cnt' = TLCEval([y \in DOMAIN cnt \cup {f} |-> IF y = f THEN k ELSE cnt[y]])
     /\ nf' = IF fl THEN 1 ELSE nf
     /\ cur' = IF d.pc \in {"adapt", "adapti"} THEN [cur EXCEPT !.ad = Append(@, r)]
               ELSE IF fl THEN [cur EXCEPT !.f = IF x THEN "noexp" ELSE f, !.k = k] ELSE cur
     /\ bad' = (bad \/ (fl /\ ~x /\ d.pc \notin Silent))
     /\ stop' = (stop \/ (r = 0 /\ d.pc = "advance"))
  /\ d' = After(c, d, r, x)
  /\ g' = IF d.pc = "solve" THEN Append(g, d.tp.step) ELSE IF d.pc = "rstate" \/ (d.pc = "adapt" /\ r > 0) THEN gs ELSE g
  /\ gs' = IF d.pc \in {"sstate", "sstate2"} THEN g ELSE gs
  /\ ex' = IF d.pc = "export" THEN Put(ex, d.elev, <<d.tp.step, d.u>>) ELSE ex
  /\ file' = IF d.pc = "ser" /\ r = 1 THEN Put(file, d.rlev + 1, [s \in DOMAIN Saved(d) \cup {"g"} |-> IF s = "g" THEN g ELSE Saved(d)[s]]) ELSE file
  /\ UNCHANGED <<c, take, n, h>>
Crash == /\ Rarely(6)
         /\ d.pc \notin {"none", "end", "read"} /\ (CrashAt = "solve" => d.pc = "solve") /\ nf = 0 /\ c.kind \in {"sol", "ts"}
         /\ d' = [d EXCEPT !.pc = "end", !.ret = -1]
         /\ cur' = [cur EXCEPT !.f = "crash", !.k = (IF "solve" \in DOMAIN cnt THEN cnt["solve"] ELSE 0) + 1] /\ nf' = 1
         /\ UNCHANGED <<c, file, take, g, gs, ex, bad, stop, n, cnt, h>>
Next == \/ \E s \in Strides, from \in {-1, 0, 1, 2} : Start(s[1], s[2], from)
        \/ \E r \in {0, 1} : Read(r)
        \/ \E r \in {-1, 0, 1} : Call(r, FALSE)
        \/ Call(1, TRUE)
        \/ Crash
Spec == Init /\ [][Next]_vars

\* every step is solved exactly once on the way to the current solution, whatever was interrupted, restarted or predicted
Once == d.pc \in {"save", "export", "ser", "model"} /\ Stepping(c) => g = [j \in 1..d.tp.step |-> j]
RECURSIVE Fold(_)
Fold(k) == IF k = 0 THEN 1 ELSE Solve(Fold(k - 1), k, 1)
Same == c.kind = "sol" /\ d.pc \in {"save", "export", "ser"} => d.u = Fold(d.tp.step)
\* with aligned strides, the results are those of an uninterrupted run
Aligned == d.pc # "none" /\ d.save > 0 /\ d.rst % d.save = 0
Lineage == \A r \in {cur} : r = <<>> \/ (\A j \in 1..Len(h) : h[j].save = r.save /\ h[j].rst = r.rst)
Exported == c.kind = "sol" /\ Aligned /\ Lineage /\ n > 0 => \A l \in DOMAIN ex : ex[l] = <<l * d.save, Fold(l * d.save)>>
Complete == c.kind = "sol" /\ Aligned /\ Lineage /\ d.pc = "end" /\ d.ret = 0 /\ ~stop /\ ~d.null =>
              /\ Finished(c, d.tp)
              /\ \A l \in (IF Multi(c, TS!Initial(Scheme(c))) THEN 0 ELSE 1)..(d.tp.step \div d.save) : Multi(c, TS!Initial(Scheme(c))) => l \in DOMAIN ex
\* the status is an error exactly when something failed
Status == d.pc = "end" /\ d.ret >= 0 => (bad => d.ret # 0) /\ (~bad /\ ~d.null => d.ret = 0)
Levels0 == \A l \in DOMAIN ex : l >= 0
Ends == d.pc = "end" /\ d.ret = 0 /\ Stepping(c) /\ ~stop => Finished(c, d.tp)
Emit == d.pc = "end" /\ n = MaxRuns => PrintT(<<"SCN", ToJson([c |-> c, h |-> Append(h, cur)])>>)
=============================================================================
