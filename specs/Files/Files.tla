------------------------------- MODULE Files -------------------------------
(* Restart files and result files, as what a reader finds in them.
   A file is Absent, Bad (not a readable data file) or the function of its time levels.
   Values are identified by number; value 0 is the empty one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Absent == [st |-> "absent", lev |-> <<>>, log |-> -1]
Bad == [st |-> "bad", lev |-> <<>>, log |-> -1]
Empty == [st |-> "ok", lev |-> <<>>, log |-> -1]
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
With(file, l, v) == [file EXCEPT !.st = "ok", !.lev = Put(@, l, v)]
Damage(file, kind) == CASE kind = 0 -> Absent
                        [] kind = 1 -> IF file.st = "absent" THEN Absent ELSE Bad
                        [] OTHER -> Bad
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x
(* ---- restart files: a level is a function of its names ---- *)
\* the names which belong to the mesh, and not to the solution
IsBasis(k) == k >= 3
Handler(f, stride, level0) == [f |-> f, stride |-> stride, lev |-> level0 - 1, last |-> 0]
Due(h, step) == step >= h.last + h.stride
Dumped(h, step) == IF Due(h, step) THEN [h EXCEPT !.last = step] ELSE h
\* a level is replaced as a whole
Write(file, h, d) == IF file.st = "bad" THEN [ok |-> FALSE, file |-> file, h |-> h]
                     ELSE [ok |-> TRUE, file |-> With(file, h.lev + 1, d), h |-> [h EXCEPT !.lev = @ + 1]]
Wanted(d, basis) == {k \in DOMAIN d : IsBasis(k) = basis}
Read(file, level, basis, old) ==
  LET l == IF level >= 0 THEN level ELSE IF file.lev = <<>> THEN -1 ELSE Highest(DOMAIN file.lev) IN
  IF file.st # "ok" \/ l \notin DOMAIN file.lev THEN [r |-> -1, d |-> old]
  ELSE IF file.lev[l] = <<>> THEN [r |-> -1, d |-> old] \* nothing was written
  ELSE LET d == file.lev[l]   W == Wanted(d, basis) IN
       [r |-> l, d |-> TLCEval([k \in DOMAIN old \cup W |-> IF k \in W THEN d[k] ELSE old[k]])]
(* ---- result files: a level is a function of the field names (and 9, the time) ---- *)
Writer(f, append, file) == [f |-> f, fresh |-> ~(append /\ file.st # "absent")]
TimeKey == 9
LastLevel(w, file) == IF w.fresh THEN -1
                      ELSE IF file.st # "ok" THEN -1
                      ELSE IF 0 \notin DOMAIN file.lev THEN -1
                      ELSE Highest({l \in DOMAIN file.lev : \A k \in 0..l : k \in DOMAIN file.lev})
Opened(w, file) == IF w.fresh \/ file.st = "absent" THEN Empty ELSE file
RECURSIVE Fill(_, _)
Fill(m, fs) == IF fs = <<>> THEN m
               ELSE Fill(IF Head(fs).en THEN Put(m, Head(fs).n, [int |-> Head(fs).int, v |-> Head(fs).v]) ELSE m, Tail(fs))
\* one time level: opened, the fields, the time (if any), closed
SaveLevel(w, file, l, fs, time) ==
  LET f == Opened(w, file) IN
  IF f.st = "bad" THEN f
  ELSE LET m == Fill(IF l \in DOMAIN f.lev THEN f.lev[l] ELSE <<>>, fs) IN
       With(f, l, IF time < 0 THEN m ELSE Put(m, TimeKey, [int |-> FALSE, v |-> <<time>>]))
SaveLog(w, file, v) == LET f == Opened(w, file) IN
                       IF f.st = "bad" THEN f ELSE [With(f, 0, IF 0 \in DOMAIN f.lev THEN f.lev[0] ELSE <<>>) EXCEPT !.log = v]
Closed(w) == [w EXCEPT !.fresh = FALSE]
\* what is found, or nothing
Found(file, l, n) == IF file.st = "ok" /\ l \in DOMAIN file.lev /\ n \in DOMAIN file.lev[l] THEN <<file.lev[l][n]>> ELSE <<>>
=============================================================================
