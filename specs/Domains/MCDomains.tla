----------------------------- MODULE MCDomains -----------------------------
EXTENDS Domains, Json
CONSTANTS MaxN, MaxG, MaxO, Depth, Big
VARIABLES n, h, r
Pt(e, nodes, fix) == [e |-> e, nodes |-> nodes, fix |-> fix]
Configs == {
  [nd |-> 1, nf |-> 2, mix |-> 0, lm |-> 0, nn |-> 5, pat |-> <<Pt(<<4, 0, 0>>, <<1, 2, 3, 4, 5>>, <<1, 12, 4, 2>>)>>],
  [nd |-> 1, nf |-> 1, mix |-> 1, lm |-> 1, nn |-> 10, pat |-> <<Pt(<<2, 0, 0>>, <<1, 2, 3, 4, 5>>, <<>>), Pt(<<2, 0, 0>>, <<3, 6, 7, 8, 9>>, <<3, 1>>)>>],
  [nd |-> 2, nf |-> 2, mix |-> 0, lm |-> 1, nn |-> 10, pat |-> <<Pt(<<2, 2, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<1, 1, 5, 12>>)>>],
  [nd |-> 2, nf |-> 1, mix |-> 0, lm |-> 0, nn |-> 6, pat |-> <<Pt(<<1, 1, 0>>, <<1, 2, 3, 4>>, <<>>), Pt(<<1, 1, 0>>, <<2, 4, 5, 6>>, <<>>)>>] }
  \cup (IF Big THEN {
  [nd |-> 3, nf |-> 1, mix |-> 0, lm |-> 0, nn |-> 18, pat |-> <<Pt(<<2, 2, 1>>, [k \in 1..18 |-> k], <<1, 1>>)>>] } ELSE {})
BlockLists == {<<>>, << <<1, 0>>, <<2, 0>> >>, << <<1, 1>>, <<1, 2>> >>, << <<12, 0>>, <<1, 2>> >>, << <<1, 2>>, <<2, 0>>, <<1, 0>> >>}
None == [w |-> "none"]
Log(e) == h' = Append(h, e) /\ n' = n + 1 /\ UNCHANGED c
MCInit == (\E cfg \in Configs : Init(cfg)) /\ n = 0 /\ h = <<>> /\ r = None
More == n < Depth /\ m.cut = NoCut
DoCut == /\ n = 0
         /\ \E a \in 1..MaxN, g \in 1..MaxG, o \in 0..MaxO : m' = [m EXCEPT !.cut = CutFrom(a, g, o)] /\ Log(<<"split", a, 0, 0, g, 0, 0, o>>)
         /\ UNCHANGED r
DoPlace == m.cut.g > Len(m.cut.p) /\ m' = [m EXCEPT !.cut = CutNext(@)] /\ UNCHANGED <<c, n, h, r>>
DoOrient == /\ n = 0
            /\ \E a, b \in 1..MaxN : \E o \in 0..7 : a < 5 /\ b < 5 /\ r' = [w |-> "orient", o |-> o, d1 |-> a, d2 |-> b]
            /\ n' = Depth /\ UNCHANGED <<c, m, h>>
DoOwn == More /\ \E p \in 1..2, o \in 0..1 : m' = SetOwner(p, o) /\ Log(<<"own", p, o>>) /\ UNCHANGED r
DoKeep == More /\ \E p, q \in 1..2 : m' = Keep(<<p, q>>) /\ Log(<<"keep", p, q>>) /\ UNCHANGED r
DoSetUp == More /\ \E bs \in BlockLists :
   /\ \A k \in 1..Len(bs) : \A d \in Digits(bs[k][2]) : d <= c.nf
   /\ m' = SetUp(bs, Numbering)
   /\ h' = Append(h, <<"setup", Len(bs)>> \o [k \in 1..(2 * Len(bs)) |-> IF k % 2 = 1 THEN bs[(k + 1) \div 2][1] ELSE bs[k \div 2][2]])
   /\ n' = n + 1 /\ UNCHANGED c /\ r' = None
DoSubd == More /\ m.sam /\ \E g1, g2 \in {0, 1, 2, 3}, o \in 0..MaxO, b \in 0..Len(m.blk) :
   /\ (IF Len(m.blk) = 0 THEN b = 0 ELSE b > 0)
   /\ r' = [w |-> "subd", b |-> b, s |-> TLCEval(Subdomains(<<g1, g2, 1>>, o, b))]
   /\ m' = m /\ Log(<<"subd", g1, g2, 1, o, IF b = 0 THEN 0 ELSE b - 1>>)
DoClear == More /\ m' = Clear /\ Log(<<"clear">>) /\ r' = None
DoNeq == More /\ ~m.sam /\ \E k \in {3, 7} : m' = SetNoEqs(k) /\ Log(<<"neq", k>>) /\ r' = None
MCNext == DoCut \/ DoPlace \/ DoOrient \/ DoOwn \/ DoKeep \/ DoSetUp \/ DoSubd \/ DoClear \/ DoNeq
MCSpec == MCInit /\ [][MCNext]_<<c, m, n, h, r>>
Hidden == <<c, m, n, r>>
\* matched points: one to one, and the opposite orientation leads back
OrientOK == r.w = "orient" =>
  LET f == FaceMap(r.d1, r.d2, r.o)
      sw == r.o \div 4 = 1
      b == FaceMap(IF sw THEN r.d2 ELSE r.d1, IF sw THEN r.d1 ELSE r.d2, Back(r.o))
  IN  /\ Rng(f) = 0..((r.d1 * r.d2) - 1)
      /\ \A k \in 1..Len(f) : b[f[k] + 1] = k - 1
\* every unknown of the block is in a subdomain
SubdOK == r.w = "subd" => LET mm == Cardinality(EqsOf(r.b)) IN m.sam /\ m.cut = NoCut => UNION Rng(r.s) = 1..mm
Emit == (n = Depth \/ (Len(m.cut.p) = m.cut.g /\ m.cut.g > 0)) /\ h # <<>> => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
