---------------------------- MODULE DomainsTrace ----------------------------
EXTENDS Domains, VF
VARIABLES t, i
vars == <<c, m, t, i>>
Ev == Traces[t].s[i + 1]
TInit == t \in 1..Len(Traces) /\ i = 1 /\ Init(Traces[t].c) /\ Traces[t].s[1].op = "begin"
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)

Inc(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
SetsOK(what, obs, spec) ==
  /\ Same2(<<what, "count">>, Len(obs), Len(spec))
  /\ \A k \in 1..Len(spec) : Same2(<<what, k>>, Rng(obs[k]), spec[k]) /\ Same2(<<what, k, "repeated">>, Len(obs[k]), Cardinality(spec[k]))

MapsOK(mm, e) ==
  LET nb == Len(mm.blk)
      Eqs(b) == IF b = 0 THEN 1..mm.neq ELSE mm.blk[b]
  IN  /\ Same2("blocks", Len(e.b), nb + 1)
      /\ \A b \in 0..nb :
           LET o == e.b[b + 1] n == Cardinality(Eqs(b))
           IN  /\ Same2(<<"first", b>>, o.min, IF mm.sam \/ mm.neq > 0 THEN 1 ELSE 0)
               /\ Same2(<<"last", b>>, o.max, n)
               /\ Same2(<<"total", b>>, o.nglb, n)
               /\ Same2(<<"global", b>>, o.g, [k \in 1..Len(o.g) |-> IF k - 2 >= 1 /\ k - 2 <= n THEN k - 2 ELSE 0])
               /\ IF b = 0 THEN TRUE
                  ELSE /\ Same2(<<"unknowns", b>>, Rng(o.eqs), mm.blk[b])
                       /\ Same2(<<"numbers", b>>, {<<o.loc[k][1], o.loc[k][2]>> : k \in 1..Len(o.loc)},
                                {<<x, Cardinality({y \in mm.blk[b] : y <= x})>> : x \in mm.blk[b]})
      /\ Same2("owners", e.own, mm.own)
      /\ Same2("no such block", e.far, <<0, 0, 0>>)
      /\ Same2("partitioned", e.part, FALSE)
      /\ Same2("node map", e.mlgn, 0) /\ Same2("equation map", e.mlgeq, 0)

Step ==
  LET e == Ev IN
  CASE e.op = "split" -> LET d == IF e.a[3] > 0 THEN 3 ELSE IF e.a[2] > 0 THEN 2 ELSE 1
                         IN  SetsOK("subdomain", e.r, Grid(SubSeq(e.a, 1, d), SubSeq(e.a, 4, 3 + d), e.a[7]))
                             /\ (\A k \in 1..Len(e.r) : Inc(e.r[k])) /\ m' = m
    [] e.op = "node" -> Same2("match", e.r, NodeMap(e.p, e.o, e.l, e.b, e.dim)) /\ Same2("size", e.n, Len(e.r)) /\ m' = m
    [] e.op = "elem" -> Same2("match", e.r, ElmMap(e.p, e.o, e.l)) /\ Same2("size", e.n, Len(e.r)) /\ m' = m
    [] e.op = "iface" -> m' = Connect([m |-> e.m, s |-> e.s, mi |-> e.mi, si |-> e.si, o |-> e.o])
    [] e.op = "conn" -> Same2("neighbours", e.r, Neighbours) /\ m' = m
    [] e.op = "own" -> m' = SetOwner(e.p, e.o) /\ Same2("owner", e.r, e.o)
    [] e.op = "ghost" -> LET A == Rng(e.a)
                         IN  /\ Same2("connections", Rng(e.r), A) /\ Same2("connections served", Len(e.r), Cardinality(A))
                             /\ Same2("same on all processes", e.rr, e.r)
                             /\ Same2("ordered", Ordered(e.r), TRUE)
                             /\ m' = [m EXCEPT !.ghosts = {}]
    [] e.op = "keep" -> m' = Keep(<<e.m, e.s>>) /\ Same2("kept", e.n, Cardinality(m'.ghosts))
    [] e.op = "setup" -> LET num == Numbering mm == SetUp([k \in 1..Len(e.a) |-> e.a[k]], num)
                         IN  /\ Same2("ok", e.ok, TRUE)
                             /\ Same2("numbering", e.meq, num) /\ Same2("unknowns", e.neq, NoEqs(num))
                             /\ Same2("nodes", <<e.minn, e.maxn, e.nnod>>, <<1, c.nn, c.nn>>)
                             /\ Same2("dofs", <<e.mind, e.maxd>>, <<1, e.ndof>>)
                             /\ MapsOK(mm, e) /\ m' = mm
    [] e.op = "subd" -> SetsOK("subdomain", e.r, Subdomains(SubSeq(e.a, 1, 3), e.a[4], IF Len(m.blk) = 0 THEN 0 ELSE e.a[5] + 1)) /\ m' = m
    [] e.op = "clear" -> LET mm == Clear IN Same2("system", e.sam, FALSE) /\ Same2("connections", e.ghosts, 0) /\ MapsOK(mm, e) /\ m' = mm
    [] e.op = "neq" -> LET mm == SetNoEqs(e.n) IN MapsOK(mm, e) /\ m' = mm

TNext ==
  \/ /\ i < Len(Traces[t].s) /\ Step /\ c' = c /\ i' = i + 1 /\ t' = t
  \/ /\ i = Len(Traces[t].s) /\ Done(t) /\ i' = i + 1 /\ UNCHANGED <<c, m, t>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
