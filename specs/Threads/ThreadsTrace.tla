---------------------------- MODULE ThreadsTrace ----------------------------
(* Recorded groupings and recorded concurrent assembly loops.
   mesh: the mesh, tg: the current grouping, dom: the elements it has to cover, sep: single-node elements separated, off: threading off *)
EXTENDS Threads, VF
VARIABLES dom, off, t, i
vars == <<mesh, tg, dom, off, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Must(what, obs, p) == IF p THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, "another")
\* unstructured: every colour is a phase of its own, whose elements are all processed concurrently
Phases(g) == [k \in 1..Len(g[1]) |-> [e \in 1..Len(g[1][k]) |-> <<g[1][k][e]>>]]

TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ mesh = IF Traces[t].c.kind = "s" THEN [kind |-> "s", n |-> Traces[t].c.n, real |-> Traces[t].c.real, p |-> Traces[t].c.p]
                   ELSE [kind |-> "u", elms |-> Traces[t].c.elms, cpl |-> Traces[t].c.cpl]
         /\ (Traces[t].c.kind = "u" => /\ Same2("read", Traces[t].s[1].ok, TRUE)
                                       /\ Same2("elements", Traces[t].s[1].nel, Len(Traces[t].c.elms))
                                       /\ Same2("nodes", Traces[t].s[1].nno, Traces[t].c.nn))
         /\ tg = <<<<>>>> /\ dom = {} /\ off = FALSE

Set(g, S) == tg' = g /\ dom' = S
Query(e, g) == /\ Same2("size", e.size, IF Len(e.g) > 1 THEN 2 ELSE 1)
               /\ Same2("empty", e.empty, e.g = <<<<>>>>)
SameStrips(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\ \A s \in 1..Len(a[k]) : RngOf(a[k][s]) = RngOf(b[k][s]) /\ Len(a[k][s]) = Len(b[k][s])
Structured(e) ==
  LET all == Elements(mesh) IN
  CASE e.op \in {"spn", "elm"} -> /\ Must("elements covered", e.g, Covers(mesh, e.g, all))
                                  /\ Must("concurrent strips", e.g, Disjoint(mesh, e.g))
                                  /\ Must("number of strips", e.g, Width(e.g) <= C.thr)
                                  /\ Query(e, e.g) /\ Set(e.g, all) /\ UNCHANGED mesh
    [] e.op = "one" -> Must("one group", e.g, Len(e.g) = 1 /\ Len(e.g[1]) = 1 /\ Covers(mesh, e.g, all)) /\ Query(e, e.g) /\ Set(e.g, all) /\ UNCHANGED mesh
    [] e.op = "str" -> Must("single elements", e.g, Len(e.g) = 1 /\ Covers(mesh, e.g, all) /\ \A s \in 1..Len(e.g[1]) : Len(e.g[1][s]) <= 1)
                       /\ Query(e, e.g) /\ Set(e.g, all) /\ UNCHANGED mesh
    [] e.op \in {"onl", "stl"} -> /\ Must("chosen elements", e.g, NoDuplicates(e.g) /\ RngOf(Listed(e.g)) = Chosen(mesh, e.l))
                                  /\ (e.op = "onl" => Must("one group", e.g, Len(e.g) = 1 /\ Len(e.g[1]) = 1))
                                  /\ (e.op = "stl" => Must("single elements", e.g, \A s \in 1..Len(e.g[1]) : Len(e.g[1][s]) <= 1))
                                  /\ Query(e, e.g) /\ Set(e.g, Chosen(mesh, e.l)) /\ UNCHANGED mesh
    [] e.op = "flt" -> LET g == TLCEval(Filter(tg, e.l)) IN
                       IF SameStrips(e.g, g) THEN Query(e, g) /\ Set(e.g, dom \cap RngOf(e.l)) /\ UNCHANGED mesh ELSE Mismatch(t, i + 1, e.g, g)
    [] e.op = "map" -> LET g == TLCEval(Map(tg, e.l)) IN
                       IF SameStrips(e.g, g) THEN Query(e, g) /\ Set(e.g, {e.l[x + 1] : x \in dom}) /\ mesh' = TLCEval(Renumbered(mesh, e.l)) ELSE Mismatch(t, i + 1, e.g, g)
    [] OTHER -> Mismatch(t, i + 1, "operation", e.op)

(* the assembly loop: the elements which are being processed at the same time have no node in common *)
RECURSIVE Safely(_, _, _)
Safely(ev, k, active) ==
  IF k > Len(ev) THEN active = {}
  ELSE LET e == ev[k][1] IN
       IF ev[k][2] = 0 THEN e \in active /\ Safely(ev, k + 1, active \ {e})
       ELSE e \notin active /\ (\A x \in active : Touched(mesh, x) \cap Touched(mesh, e) = {}) /\ Safely(ev, k + 1, active \cup {e})
Started(ev) == LET S == SelectSeq(ev, LAMBDA x : x[2] = 1) IN [k \in 1..Len(S) |-> S[k][1]]
Unstructured(e) ==
  CASE e.op \in {"col", "gen"} ->
         LET multi == e.op = "col" \/ C.thr > 1
             g == TLCEval(IF multi THEN Phases(e.g) ELSE e.g) IN
         /\ Must("elements covered", e.g, Len(e.g) = 1 /\ Covers(mesh, g, Elements(mesh)))
         /\ Must("elements of one colour", e.g, Disjoint(mesh, g))
         /\ Set(g, Elements(mesh)) /\ UNCHANGED <<mesh, off>>
    [] e.op = "off" -> off' = TRUE /\ UNCHANGED <<mesh, tg, dom>>
    [] e.op = "int" ->
         LET S == IF e.l # <<>> /\ e.l[1] < 0 THEN {} ELSE IF e.safe THEN Chosen(mesh, e.l) ELSE dom
             st == TLCEval(Started(e.ev)) IN
         /\ Same2("ok", e.ok, e.fail \notin S)
         /\ Must("elements processed", e.ev, Cardinality(RngOf(st)) = Len(st) /\ RngOf(st) \subseteq S /\ (e.ok => RngOf(st) = S))
         /\ (~e.safe => Must("processed concurrently", e.ev, Safely(e.ev, 1, {})))
         /\ UNCHANGED <<mesh, tg, dom, off>>
    [] OTHER -> Mismatch(t, i + 1, "operation", e.op)
TNext == /\ i < Len(Traces[t].s)
         /\ (IF C.kind = "s" THEN Structured(Ev) /\ UNCHANGED off ELSE Unstructured(Ev))
         /\ i' = i + 1 /\ UNCHANGED t
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
