------------------------------ MODULE MCFiles ------------------------------
(* One restart file with two handlers and one result file with two writers, all histories up to a given length.
   The history of the performed operations is the scenario for the implementation. *)
EXTENDS Files, Json
CONSTANTS Depth, Both
VARIABLES rf, df, h, w, n, hist, wrote
vars == <<rf, df, h, w, n, hist, wrote>>
Data == {<<>>, 0 :> 1, (0 :> 2) @@ (3 :> 1), 3 :> 0, (1 :> 0) @@ (4 :> 2)}
Fields == {<<>>, <<[n |-> 0, int |-> FALSE, en |-> TRUE, v |-> <<1>>]>>,
           <<[n |-> 0, int |-> TRUE, en |-> TRUE, v |-> <<2, 3>>], [n |-> 1, int |-> FALSE, en |-> FALSE, v |-> <<4>>]>>,
           <<[n |-> 1, int |-> FALSE, en |-> TRUE, v |-> <<>>], [n |-> 0, int |-> FALSE, en |-> TRUE, v |-> <<5, 6>>]>>}
Op(x) == hist' = Append(hist, x)
None == [f |-> -1]
Init == /\ rf = Absent /\ df = Absent /\ h = <<None, None>> /\ w = <<None, None>> /\ n = 0 /\ hist = <<>> /\ wrote = <<>>
New(k, stride, l0) == /\ h' = [h EXCEPT ![k] = Handler(0, stride, l0)] /\ Op(<<"new", k, stride, l0>>) /\ UNCHANGED <<rf, df, w, wrote>>
DueOp(k, step) == h[k] # None /\ h' = [h EXCEPT ![k] = Dumped(@, step)] /\ Op(<<"due", k, step>>) /\ UNCHANGED <<rf, df, w, wrote>>
Wr(k, d) == /\ h[k] # None
            /\ LET x == Write(rf, h[k], d) IN rf' = x.file /\ h' = [h EXCEPT ![k] = x.h] /\ wrote' = IF x.ok THEN <<x.h.lev, d>> ELSE wrote
            /\ Op(<<"wr", k, d>>) /\ UNCHANGED <<df, w>>
Break(rst, kind) == /\ IF rst THEN rf' = Damage(rf, kind) /\ df' = df ELSE df' = Damage(df, kind) /\ rf' = rf
                    /\ wrote' = IF rst THEN <<>> ELSE wrote
                    /\ Op(<<"bad", rst, kind>>) /\ UNCHANGED <<h, w>>
WNew(k, app) == w' = [w EXCEPT ![k] = Writer(0, app, df)] /\ Op(<<"wnew", k, app>>) /\ UNCHANGED <<rf, df, h, wrote>>
Lev(k, l, fs, tm) == /\ w[k] # None
                     /\ df' = SaveLevel(w[k], df, l, fs, tm) /\ w' = [w EXCEPT ![k] = Closed(@)]
                     /\ Op(<<"lev", k, l, fs, tm>>) /\ UNCHANGED <<rf, h, wrote>>
Log(k, v) == /\ w[k] # None /\ df' = SaveLog(w[k], df, v) /\ w' = [w EXCEPT ![k] = Closed(@)]
             /\ Op(<<"log", k, v>>) /\ UNCHANGED <<rf, h, wrote>>
Step == \/ \E k \in 1..2 : \/ \E s \in {1, 2}, l \in {0, 2} : New(k, s, l)
                           \/ \E st \in {1, 2, 4} : DueOp(k, st)
                           \/ \E d \in Data : Wr(k, d)
        \/ Both /\ \E k \in 1..2 : \/ \E a \in BOOLEAN : WNew(k, a)
                                   \/ \E l \in 0..1, fs \in Fields, tm \in {-1, 3} : Lev(k, l, fs, tm)
                                   \/ Log(k, 2)
        \/ \E kind \in 0..2 : Break(TRUE, kind) \/ (Both /\ Break(FALSE, kind))
Next == n < Depth /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars
Hidden == <<rf, df, h, w, n, wrote>>
(* --- the guarantees --- *)
NoData == <<>>
\* what was written last is what a reader of that level finds: the solution and the mesh separately, nothing else
ReadBack == wrote # <<>> =>
  LET l == wrote[1]   d == wrote[2] IN
  d # <<>> => /\ \A b \in BOOLEAN : LET x == Read(rf, l, b, NoData) IN x.r = l /\ \A k \in DOMAIN x.d : x.d[k] = d[k]
              /\ DOMAIN Read(rf, l, TRUE, NoData).d \cup DOMAIN Read(rf, l, FALSE, NoData).d = DOMAIN d
              /\ DOMAIN Read(rf, l, TRUE, NoData).d \cap DOMAIN Read(rf, l, FALSE, NoData).d = {}
\* the default is the highest level, and failures leave the data alone
Default == LET x == Read(rf, -1, FALSE, 0 :> 7) IN
           IF x.r < 0 THEN x.d = (0 :> 7) ELSE \A l \in DOMAIN rf.lev : l <= x.r
\* no other level is touched by a writer of either kind
Preserve == [][/\ (hist'[Len(hist')][1] = "wr" => \A l \in DOMAIN rf.lev : (rf.st = "ok" /\ l # h'[hist'[Len(hist')][2]].lev) => l \in DOMAIN rf'.lev /\ rf'.lev[l] = rf.lev[l])
               /\ (hist'[Len(hist')][1] = "lev" /\ ~w[hist'[Len(hist')][2]].fresh =>
                     \A l \in DOMAIN df.lev \ {hist'[Len(hist')][3]} : l \in DOMAIN df'.lev /\ df'.lev[l] = df.lev[l])]_vars
\* a writer which was told to append never loses anything but to its own new data
Fresh == \A k \in 1..2 : w[k] # None => (LastLevel(w[k], df) >= 0 => ~w[k].fresh)
Emit == n = Depth => PrintT(<<"SCN", ToJson([h |-> hist])>>)
=============================================================================
