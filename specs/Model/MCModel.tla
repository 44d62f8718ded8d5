------------------------------ MODULE MCModel ------------------------------
(* Exhaustive exploration of small models. *)
EXTENDS Model, Json

CONSTANTS Depth, Rich
VARIABLES n, h

El(id, nn) == [id |-> id, n |-> nn]
P1(nf, nodes, elms) == [nf |-> nf, nodes |-> nodes, elms |-> elms]
Configs == {
  [pat |-> <<P1(1, <<1, 2, 3>>, <<El(1, <<1, 2>>), El(2, <<2, 3>>)>>)>>],
  [pat |-> <<P1(1, <<1, 2>>, <<El(2, <<1, 2>>)>>), P1(1, <<3, 2>>, <<El(1, <<2, -1>>)>>)>>],
  [pat |-> <<P1(2, <<2, 1>>, <<El(3, <<1, 2>>)>>)>>] }

Ks == Keys(m)
Terms1 == {<<>>} \cup {<<[k |-> k, a |-> a]>> : k \in Ks, a \in {1, 2}}
Terms2 == {<<[k |-> k, a |-> 1], [k |-> l, a |-> -1]>> : k \in Ks, l \in Ks}
Build == m.phase = "build" /\ n < Depth
Log(e) == h' = Append(h, e) /\ n' = n + 1 /\ UNCHANGED c
OkModel(mm) == Acyclic(MergeAll(mm, 1, NoEqs), {})

MCInit == \E cc \in Configs : Init(cc) /\ n = 0 /\ h = <<>>
DoFix == Build /\ \E p \in Pats : \E j \in 1..Len(m.nod[p]) : \E d \in 1..c.pat[p].nf :
           m' = FixDofs(m, p, j, d) /\ Log(<<"fix", p, j, d>>)
DoPresc == Build /\ \E p \in Pats : \E j \in 1..Len(m.nod[p]) : \E d \in 1..c.pat[p].nf : \E o \in BOOLEAN :
           m' = Prescribe(m, p, j, d, 1, o).m /\ Log(<<"presc", p, j, d, 1, IF o THEN 1 ELSE 0>>)
DoMpc == Build /\ \E p \in Pats : \E k \in {x \in Ks : x[1] \in Range(m.nod[p])} :
           \E ms \in Terms1 \cup (IF Rich THEN Terms2 ELSE {}) : \E c0 \in {0, 1} :
             LET mm == AddEq(m, p, k, [c0 |-> c0, ms |-> AddMasters(<<>>, ms), code |-> 0], FALSE).m
             IN  /\ ms # <<>> \/ c0 # 0
                 /\ OkModel(mm) /\ m' = mm
                 /\ Log(<<"mpc", p, k[1], k[2], c0, 0, 0, Len(ms)>> \o
                        [j \in 1..Len(ms) |-> <<ms[j].k[1], ms[j].k[2], ms[j].a>>])
DoPrep == m.phase = "build" /\ \E v \in {0, 2} :
           m' = Prepared(m, <<v, v, v>>) /\ Log(<<"prep", 1, v, v, v>>)
DoUpd == m.phase = "run" /\ n < Depth + 2 /\ \E v \in {0, 3} : \E kind \in 0..2 :
           m' = Updated(m, <<v, v, v>>, kind, LAMBDA k : k[1], 2) /\ Log(<<"upd", kind, 2, v, v, v>>)

MCNext == DoFix \/ DoPresc \/ DoMpc \/ DoPrep \/ DoUpd
MCSpec == MCInit /\ [][MCNext]_<<c, m, n, h>>
Hidden == <<c, m>>

(* The projected system, against the product of the matrices *)
RECURSIVE SumRange(_, _, _)
SumRange(a, b, f) == IF a > b THEN 0 ELSE f[a] + SumRange(a + 1, b, f)
FullK(e, k, l) == LET ed == EDofs(m, ElmAt(m, e), 1)
                  IN  SumOver({ij \in (1..Len(ed)) \X (1..Len(ed)) : ed[ij[1]] = k /\ ed[ij[2]] = l}, LAMBDA ij : KE(e, 0, ij[1], ij[2]))
Projected == m.phase = "run" =>
  LET el == Elements(m)
      T(k, f) == m.res[k].lin[f]
  IN  \A e \in 1..NElm : \A f \in Free(m) :
        /\ \A g \in Free(m) : KItem(m, el[e], e, 0, f, g) =
             SumOver(Ks \X Ks, LAMBDA kl : T(kl[1], f) * FullK(e, kl[1], kl[2]) * T(kl[2], g))
        /\ RItem(m, el[e], e, 0, f, FALSE, TRUE) =
             -SumOver(Ks \X Ks, LAMBDA kl : T(kl[1], f) * FullK(e, kl[1], kl[2]) * Off(m, kl[2]))
(* equilibrium: the reactions do no work in motions which satisfy the constraints *)
NoWork == m.phase = "run" =>
  LET el == Elements(m)
  IN  \A e \in 1..NElm : \A f \in Free(m) :
        SumOver(Ks, LAMBDA k : m.res[k].lin[f] * FItem(m, el[e], e, 0, k, FALSE, TRUE)) = RItem(m, el[e], e, 0, f, FALSE, TRUE)
(* after an increment from any previous state the constraints hold for the new prescribed values *)
IncrementOK == (m.phase = "run" /\ h # <<>> /\ Head(h[Len(h)]) = "upd" /\ h[Len(h)][2] = 2) =>
  LET inc(f) == 1 + f[1]
      new(k) == IF k \in Free(m) THEN Prev(k[1], 2) + inc(k) ELSE
                  Prev(k[1], 2) + m.off[k] + SumOver(Free(m), LAMBDA f : m.res[k].lin[f] * inc(f))
  IN  \A k \in Slaves(m) : new(k) = C0(m.all[k], m.val) +
        SumSeq(m.all[k].ms, 1, LAMBDA t : t.a * (IF t.k \in Fixed(m) THEN 0 ELSE new(t.k)))
Emit == m.phase = "run" => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
