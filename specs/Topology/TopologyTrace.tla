--------------------------- MODULE TopologyTrace ---------------------------
EXTENDS Topology, VF
VARIABLES t, i
vars == <<c, m, t, i>>
Ev == Traces[t].s[i + 1]
TInit == t \in 1..Len(Traces) /\ i = 1 /\ Init(Traces[t].c) /\ Traces[t].s[1].op = "begin"
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)

EqSet(q) == {[s |-> <<q[k].s[1], q[k].s[2]>>, m |-> [j \in 1..Len(q[k].m) |-> <<q[k].m[j][1], q[k].m[j][2], q[k].m[j][3]>>], code |-> q[k].code] : k \in 1..Len(q)}
SeqOK(mm, e) ==
  \A p \in Pats :
    /\ Same2(<<"numbers", p>>, e.num[p], mm.num[Src(p)])
    /\ Same2(<<"fixed", p>>, Range(e.bc[p]), mm.bc[p])
\* constraint equations: the exact set, each one found again by the unknown it is for
EqsOK(mm, e) ==
  \A p \in Pats : /\ Same2(<<"constraints", p>>, EqSet(e.eqs[p]), mm.eqs[p])
                  /\ Len(e.eqs[p]) = Cardinality(mm.eqs[p])
                  /\ Same2(<<"found", p>>, e.lost[p], 0)
\* after the merging of the constraints of all patches: one equation for each constrained unknown
MergedEqsOK(mm, e) ==
  LET all == UNION {mm.eqs[p] : p \in Pats}
      obs == UNION {EqSet(e.eqs[p]) : p \in Pats}
  IN  /\ Same2("constrained", {x.s : x \in obs}, {x.s : x \in all})
      /\ IF obs \subseteq all THEN TRUE ELSE Mismatch(t, i+1, <<"constraints", obs>>, all)
MeshOK(mm, e) ==
  \A p \in Own :
    /\ Same2(<<"elements", p>>, e.elm[p], [k \in 1..Len(mm.elm[p]) |-> mm.elm[p][k].n])
    /\ Same2(<<"element ids", p>>, e.ids[p], [k \in 1..Len(mm.elm[p]) |-> IF k \in mm.dead[p] THEN 0 ELSE mm.elm[p][k].id])
MapsOK(mm, e) ==
  LET D == DOMAIN mm.g2l
  IN  /\ Same2("nodes", e.nn, Cardinality(D))
      /\ Same2("new numbers", {<<e.g2l[k][1], e.g2l[k][2]>> : k \in 1..Len(e.g2l)}, {<<n, mm.g2l[n]>> : n \in D})
      /\ Same2("old numbers", e.l2g, [k \in 1..Cardinality(D) |-> CHOOSE n \in D : mm.g2l[n] = k])
      /\ Same2("queries", e.q, [k \in 1..Len(e.q) |-> IF k \in D THEN mm.g2l[k] ELSE -1])
DegenOK(mm, e) ==
  LET Dead == UNION {{<<p, k>> : k \in mm.dead[p]} : p \in Own}
      NodesOf(x) == {mm.num[x[1]][j] : j \in Range(mm.elm[x[1]][x[2]].n)}
      tags == {<<e.degen[k][1], e.degen[k][2]>> : k \in 1..Len(e.degen)}
      Id(x) == mm.elm[x[1]][x[2]].id
  IN  /\ Same2("tagged nodes", {g[1] : g \in tags}, UNION {NodesOf(x) : x \in Dead})
      /\ IF \A g \in tags : \E x \in Dead : g[1] \in NodesOf(x) /\ (g[2] = Id(x) \/ g[2] = 0) THEN TRUE
         ELSE Mismatch(t, i+1, <<"tags", tags>>, Dead)

Obs(mm, e) == SeqOK(mm, e) /\ EqsOK(mm, e) /\ MeshOK(mm, e)
Quiet(mm, e) == Obs(mm, e) /\ m' = mm
Step ==
  LET e == Ev IN
  CASE e.op = "nbr" -> UNCHANGED m
    [] e.op = "col" -> LET r == Collapse(m, <<e.p, e.i>>, <<e.q, e.j>>) IN Same2("ok", e.ok, r.ok) /\ Quiet(r.m, e)
    [] e.op = "mrg" -> LET mm == MergeTo(m, <<e.p, e.i>>, e.n)
                       IN  Same2("ok", e.ok, Num(m, <<e.p, e.i>>) # e.n) /\
                           Quiet([mm EXCEPT !.cls = [z \in Places |-> {y \in Places : Num(mm, y) = Num(mm, z)}]], e)
    [] e.op = "slf" -> LET RECURSIVE F(_, _)
                           F(k, mm) == IF k > Len(e.prs) THEN mm
                                       ELSE LET a == e.prs[k][1] b == e.prs[k][2]
                                            IN  F(k+1, IF e.any \/ c.pat[e.p].x[a] = c.pat[e.p].x[b] THEN Collapse(mm, <<e.p, a>>, <<e.p, b>>).m ELSE mm)
                       IN  /\ Same2("ok", e.ok, e.any \/ \A k \in 1..Len(e.prs) : c.pat[e.p].x[e.prs[k][1]] = c.pat[e.p].x[e.prs[k][2]])
                           /\ Quiet(F(1, m), e)
    [] e.op = "fix" -> Quiet(Fix(m, e.p, e.i, e.d), e)
    [] e.op = "prs" -> Quiet(Prescribe(m, e.p, e.i, e.d, e.code), e)
    [] e.op = "mpc" -> LET r == Constrain(m, e.p, e.i, e.d, e.ms) IN Same2("ok", e.ok, r.ok) /\ Quiet(r.m, e)
    [] e.op = "per" -> Quiet(Periodic(m, e.p, e.i, e.j, e.d), e)
    [] e.op = "ren" -> LET mm == Renumber(m, e.keep, e.rec) IN Same2("ok", e.ok, TRUE) /\ Quiet(mm, e) /\ MapsOK(mm, e) /\ DegenOK(mm, e)
    [] e.op = "pre" -> LET m1 == IF e.rec THEN FixDup(m, {}, AllPlaces(1)) ELSE m
                           mm == Renumber(m1, e.keep, e.rec)
                       IN  /\ Same2("ok", e.ok, TRUE)
                           /\ SeqOK(mm, e) /\ MergedEqsOK(mm, e) /\ MeshOK(mm, e) /\ MapsOK(mm, e) /\ DegenOK(mm, e)
                           /\ m' = mm
TNext == /\ i < Len(Traces[t].s)
         /\ Step
         /\ i' = i + 1 /\ UNCHANGED <<c, t>>
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
