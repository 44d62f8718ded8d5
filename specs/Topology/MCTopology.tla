---------------------------- MODULE MCTopology ----------------------------
EXTENDS Topology, Json
CONSTANTS Depth, Big
VARIABLES n, h
El(id, q) == [id |-> id, n |-> q]
P(nf, nodes, x, elms) == [nf |-> nf, nodes |-> nodes, x |-> x, elms |-> elms, share |-> 0]
\* patches meeting in corners;  nb: which are neighbours
Configs == {
  [pat |-> <<P(2, <<1, 2>>, <<1, 2>>, <<El(1, <<1, 2>>)>>), P(2, <<3, 4>>, <<2, 3>>, <<El(2, <<1, 2>>)>>),
             P(2, <<5, 6>>, <<2, 4>>, <<El(3, <<1, 2>>)>>)>>],
  [pat |-> <<P(1, <<4, 2, 7>>, <<1, 2, 1>>, <<El(1, <<1, 2, 3>>)>>), P(1, <<3, 9>>, <<1, 5>>, <<El(2, <<1, 2>>)>>)>>] }
  \cup (IF Big THEN {
  [pat |-> <<P(2, <<9, 2, 7>>, <<1, 2, 1>>, <<El(1, <<1, 2, 3>>)>>), P(2, <<3, 5, 1>>, <<1, 5, 2>>, <<El(2, <<3, 1, 2>>)>>)>>] } ELSE {})
Build == m.state = "build" /\ n < Depth
Log(e) == h' = Append(h, e) /\ n' = n + 1 /\ UNCHANGED c
MCInit == \E cc \in Configs : Init(cc) /\ n = 0 /\ h = <<>>
\* no constraint may couple a node with itself afterwards
Sane(mm) == \A p, q \in Pats : \A e \in mm.eqs[p] : \A f \in mm.eqs[q] : (p = q /\ e.s = f.s => e = f) /\ \A k \in 1..Len(f.m) : e.s # SubSeq(f.m[k], 1, 2)
DoCol == Build /\ \E x, y \in Places : (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])) /\
           LET r == Collapse(m, x, y) IN Sane(r.m) /\ m' = r.m /\ Log(<<"col", x[1], x[2], y[1], y[2]>>)
DoFix == Build /\ \E x \in Places : m' = Fix(m, x[1], x[2], 1) /\ Log(<<"fix", x[1], x[2], 1>>)
DoPer == Build /\ \E p \in Own : c.pat[p].nf > 1 /\ \E a, b \in 1..Len(m.num[p]) : a # b /\
           m' = Periodic(m, p, a, b, 2) /\ Sane(m') /\ Log(<<"per", p, a, b, 2>>)
DoRen == m.state = "build" /\ \E k, r \in BOOLEAN : m' = Renumber(m, k, r) /\ Sane(m') /\ Log(<<"ren", IF k THEN 1 ELSE 0, IF r THEN 1 ELSE 0>>)
DoPre == m.state = "build" /\ \E k, r \in BOOLEAN :
           m' = Renumber(IF r THEN FixDup(m, {}, AllPlaces(1)) ELSE m, k, r) /\ Sane(m') /\ Log(<<"pre", IF k THEN 1 ELSE 0, IF r THEN 1 ELSE 0>>)
MCNext == DoCol \/ DoFix \/ DoPer \/ DoRen \/ DoPre
MCSpec == MCInit /\ [][MCNext]_<<c, m, n, h>>
Hidden == <<c, m>>
\* merging only joins what was declared the same: the number of nodes is the number of classes
Emit == m.state = "done" => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
