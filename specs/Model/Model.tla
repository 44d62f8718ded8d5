------------------------------- MODULE Model -------------------------------
(* The algebraic model: patches with boundary conditions and constraint       *)
(* equations, the equation numbering, and the assembly of the linear system.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c,    \* configuration: [nnod, pat |-> <<[nf, nodes, elms |-> <<[id, n]>>]>>]
          m     \* the model, see Init

Range(f) == {f[x] : x \in DOMAIN f}
Abs(x) == IF x < 0 THEN -x ELSE x
SumOver(S, F(_)) == LET RECURSIVE G(_)
                        G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + G(T \ {x})
                    IN  G(S)
SumSeq(q, from, F(_)) == LET RECURSIVE G(_)
                             G(i) == IF i > Len(q) THEN 0 ELSE F(q[i]) + G(i+1)
                         IN  G(from)

Pats == 1..Len(c.pat)
NoEqs == [k \in {} |-> 0]

(* Each patch: fixed unknowns, equations by slave, Lagrange multiplier nodes, connectivity *)
Init(cc) ==
  /\ c = cc
  /\ m = [phase |-> "build",
          fix |-> [p \in 1..Len(cc.pat) |-> {}],
          eqs |-> [p \in 1..Len(cc.pat) |-> NoEqs],
          lm  |-> [p \in 1..Len(cc.pat) |-> <<>>],
          nlag |-> [p \in 1..Len(cc.pat) |-> 0],
          nod |-> [p \in 1..Len(cc.pat) |-> cc.pat[p].nodes],
          con |-> [p \in 1..Len(cc.pat) |-> [e \in 1..Len(cc.pat[p].elms) |-> cc.pat[p].elms[e].n]],
          all |-> NoEqs, val |-> <<1, 1, 1>>, off |-> NoEqs, res |-> NoEqs]

Digits(n) == LET RECURSIVE D(_)
                 D(k) == IF k = 0 THEN {} ELSE {k % 10} \cup D(k \div 10)
             IN  D(n)
\* the digits of a set written as a number in increasing order
RECURSIVE AsNumber(_, _)
AsNumber(S, acc) == IF S = {} THEN acc
                    ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN AsNumber(S \ {x}, 10*acc + x)

(* ---- boundary conditions ---- *)
FixDofs(mm, p, inod, dirs) ==
  [mm EXCEPT !.fix[p] = @ \cup {<<mm.nod[p][inod], d>> : d \in {x \in Digits(dirs) : x <= c.pat[p].nf}}]
InvalidDirs(p, dirs) == AsNumber({x \in Digits(dirs) : x > c.pat[p].nf}, 0)

\* masters as the sequence of terms after adding them one by one
RECURSIVE AddMasters(_, _)
AddMasters(ms, new) ==
  IF new = <<>> THEN ms
  ELSE LET t == Head(new)
           hit == {i \in 1..Len(ms) : ms[i].k = t.k}
       IN  IF t.a = 0 THEN AddMasters(ms, Tail(new))
           ELSE IF hit = {} THEN AddMasters(Append(ms, t), Tail(new))
           ELSE LET i == CHOOSE i \in hit : TRUE IN AddMasters([ms EXCEPT ![i].a = @ + t.a], Tail(new))

AddEq(mm, p, key, eq, override) ==   \* result [ok, m]
  LET isfix == key \in mm.fix[p]
      mm1 == IF isfix THEN [mm EXCEPT !.fix[p] = @ \ {key}] ELSE mm
      old == mm1.eqs[p]
      put == [mm1 EXCEPT !.eqs[p] = [k \in DOMAIN old \cup {key} |-> IF k = key THEN eq ELSE old[k]]]
  IN  IF isfix /\ ~override THEN [ok |-> TRUE, m |-> mm]
      ELSE IF key \notin DOMAIN old THEN [ok |-> TRUE, m |-> put]
      ELSE IF override /\ Len(old[key].ms) = 0 THEN [ok |-> TRUE, m |-> put]
      ELSE [ok |-> FALSE, m |-> mm1]

RECURSIVE PrescribeDofs(_, _, _, _, _, _)
PrescribeDofs(mm, p, node, ds, code, override) ==  \* result [ign, m]
  IF ds = {} THEN [ign |-> {}, m |-> mm]
  ELSE LET d == CHOOSE x \in ds : \A y \in ds : x <= y
           r == IF d <= c.pat[p].nf THEN AddEq(mm, p, <<node, d>>, [c0 |-> 1, ms |-> <<>>, code |-> code], override)
                ELSE [ok |-> FALSE, m |-> mm]
           q == PrescribeDofs(r.m, p, node, ds \ {d}, code, override)
       IN  [ign |-> (IF r.ok THEN {} ELSE {d}) \cup q.ign, m |-> q.m]
Prescribe(mm, p, inod, dirs, code, override) ==
  IF code = 0 THEN [ign |-> InvalidDirs(p, dirs), m |-> FixDofs(mm, p, inod, dirs)]
  ELSE LET r == PrescribeDofs(mm, p, mm.nod[p][inod], Digits(dirs), code, override)
       IN  [ign |-> AsNumber(r.ign, 0), m |-> r.m]

(* ---- Lagrange multipliers: an extra node, in one element or in all (iel = 0) ---- *)
AddLag(mm, p, iel, node, nn) ==  \* result [ok, m]
  LET first == mm.nlag[p] = 0 \/ iel = 0
      new == node \notin Range(mm.nod[p])
      nod1 == IF new THEN Append(mm.nod[p], node) ELSE mm.nod[p]
      loc == CHOOSE i \in 1..Len(nod1) : nod1[i] = node
  IN  IF ~first /\ nn # mm.nlag[p] THEN [ok |-> FALSE, m |-> mm]
      ELSE [ok |-> TRUE, m |-> [mm EXCEPT
              !.nlag[p] = IF first THEN nn ELSE @,
              !.nod[p] = nod1,
              !.con[p] = [e \in DOMAIN @ |-> IF iel \in {0, e} THEN Append(@[e], loc) ELSE @[e]]]]

(* ---- nodes and unknowns ---- *)
Holders(mm, n) == {p \in Pats : n \in Range(mm.nod[p])}
NDof(mm, n) == LET H == Holders(mm, n)
               IN  IF H = {} THEN 0
                   ELSE LET p == CHOOSE p \in H : \A q \in H : p <= q
                            loc == CHOOSE i \in 1..Len(mm.nod[p]) : mm.nod[p][i] = n
                        IN  IF loc > Len(c.pat[p].nodes) THEN mm.nlag[p] ELSE c.pat[p].nf
NNod(mm) == LET S == UNION {Range(mm.nod[p]) : p \in Pats} IN CHOOSE x \in S : \A y \in S : y <= x
Keys(mm) == UNION {{<<n, d>> : d \in 1..NDof(mm, n)} : n \in 1..NNod(mm)}
Fixed(mm) == UNION {mm.fix[p] : p \in Pats}

(* ---- merging the equations of all patches ---- *)
Same(a, b) == Len(a.ms) = Len(b.ms) /\ \A i \in 1..Len(a.ms) : a.ms[i] = b.ms[i]
MergeEq(E, e) == IF E.c0 = 0 /\ Len(E.ms) > 1 /\ E.c0 = e.c0 /\ ~Same(E, e) THEN [E EXCEPT !.ms = AddMasters(E.ms, e.ms)] ELSE E
RECURSIVE MergeAll(_, _, _)
MergeAll(mm, p, acc) ==
  IF p > Len(c.pat) THEN acc
  ELSE MergeAll(mm, p+1, [k \in DOMAIN acc \cup DOMAIN mm.eqs[p] |->
         IF k \notin DOMAIN acc THEN mm.eqs[p][k]
         ELSE IF k \in DOMAIN mm.eqs[p] THEN MergeEq(acc[k], mm.eqs[p][k]) ELSE acc[k]])

(* ---- what the chains of equations prescribe ---- *)
C0(e, val) == IF e.code > 0 THEN val[e.code] ELSE e.c0
RECURSIVE Res(_, _, _, _, _)
Res(all, fixed, keys, val, k) ==   \* [off, lin]: k = off + SUM lin[f]*f over the free unknowns f
  IF k \in fixed THEN [off |-> 0, lin |-> [x \in keys |-> 0]]
  ELSE IF k \notin DOMAIN all THEN [off |-> 0, lin |-> [x \in keys |-> IF x = k THEN 1 ELSE 0]]
  ELSE LET RECURSIVE Add(_, _)
           Add(i, acc) == IF i > Len(all[k].ms) THEN acc
             ELSE LET r == Res(all, fixed, keys, val, all[k].ms[i].k)
                      a == all[k].ms[i].a
                  IN  Add(i+1, [off |-> acc.off + a * r.off, lin |-> [x \in keys |-> acc.lin[x] + a * r.lin[x]]])
       IN  Add(1, [off |-> C0(all[k], val), lin |-> [x \in keys |-> 0]])

\* no circular reference among the equations (of unknowns which are not fixed)
Depends(all, fixed) == {<<a, b>> \in (DOMAIN all \ fixed) \X (DOMAIN all \ fixed) : \E i \in 1..Len(all[a].ms) : all[a].ms[i].k = b}
Acyclic(all, fixed) ==
  LET RECURSIVE Peel(_)
      Peel(S) == LET leaves == {a \in S : ~\E b \in S : <<a, b>> \in Depends(all, fixed)}
                 IN  S = {} \/ (leaves # {} /\ Peel(S \ leaves))
  IN  Peel(DOMAIN all \ fixed)

Resolution(all, fixed, keys, val) == TLCEval([k \in keys |-> TLCEval(Res(all, fixed, keys, val, k))])

Prepared(mm, val) ==
  LET all == MergeAll(mm, 1, NoEqs)
      r == Resolution(all, Fixed(mm), Keys(mm), val)
  IN  [mm EXCEPT !.phase = "run", !.all = all, !.val = val, !.res = r, !.off = [k \in Keys(mm) |-> r[k].off]]
Slaves(mm) == DOMAIN mm.all \ Fixed(mm)
Free(mm) == Keys(mm) \ (DOMAIN mm.all \cup Fixed(mm))

(* new constant terms: none (kind 0), total values (1), or the increments from a previous solution (2) *)
Prev(idx, s) == ((idx*5 + s) % 7) - 3
Updated(mm, val, kind, Idx(_), s) ==
  LET r == Resolution(mm.all, Fixed(mm), Keys(mm), val)
      P(k) == Prev(Idx(k), s)
  IN  CASE kind = 0 -> [mm EXCEPT !.off = [k \in Keys(mm) |-> 0]]
        [] kind = 1 -> [mm EXCEPT !.val = val, !.res = r, !.off = [k \in Keys(mm) |-> r[k].off]]
        [] OTHER -> [mm EXCEPT !.val = val, !.res = r,
             !.off = [k \in Keys(mm) |-> IF k \in Slaves(mm)
                        THEN r[k].off + SumOver(Free(mm), LAMBDA f : r[k].lin[f] * P(f)) - P(k) ELSE 0]]

(* ---- elements ---- *)
\* active elements in increasing order of their numbers; holes are elements without nodes
ElmAt(mm, id) == LET S == {pe \in UNION {{<<p, e>> : e \in 1..Len(c.pat[p].elms)} : p \in Pats} : c.pat[pe[1]].elms[pe[2]].id = id}
                 IN  IF S = {} THEN <<>>
                     ELSE LET pe == CHOOSE x \in S : TRUE
                              nn == mm.con[pe[1]][pe[2]]
                          IN  [i \in 1..Len(nn) |-> IF nn[i] < 0 THEN -mm.nod[pe[1]][-nn[i]] ELSE mm.nod[pe[1]][nn[i]]]
NElm == LET S == UNION {{c.pat[p].elms[e].id : e \in 1..Len(c.pat[p].elms)} : p \in Pats} \cup {0}
        IN  CHOOSE x \in S : \A y \in S : y <= x
\* the unknowns of an element in order; <<0,0>> for those which are inactive
RECURSIVE EDofs(_, _, _)
EDofs(mm, nodes, i) ==
  IF i > Len(nodes) THEN <<>>
  ELSE LET n == nodes[i]
       IN  (IF n > 0 THEN [d \in 1..NDof(mm, n) |-> <<n, d>>] ELSE [d \in 1..NDof(mm, -n) |-> <<0, 0>>]) \o EDofs(mm, nodes, i+1)

(* ---- assembly ---- *)
KE(e, s, i, j) == ((i*7 + j*3 + e*5 + s) % 11) - 5
SE(e, s, i) == ((i*5 + e*3 + s) % 9) - 4
Off(mm, k) == IF k \in Slaves(mm) THEN mm.off[k] ELSE 0
Lin(mm, k, f) == IF k = <<0, 0>> THEN 0 ELSE mm.res[k].lin[f]

\* each element: its unknowns, and those of them which depend on a given free unknown
Elements(mm) ==
  LET fr == TLCEval(Free(mm))
  IN  TLCEval([e \in 1..NElm |->
        LET ed == TLCEval(EDofs(mm, ElmAt(mm, e), 1))
        IN  [ed |-> ed,
             sl |-> TLCEval({j \in 1..Len(ed) : ed[j] # <<0, 0>> /\ ed[j] \in Slaves(mm)}),
             dep |-> TLCEval([f \in fr |-> {i \in 1..Len(ed) : Lin(mm, ed[i], f) # 0}])]])

\* the net load on an element unknown: the element vector less the matrix times the prescribed values
NetLoad(mm, el, e, s, i, vec, mat) ==
  (IF vec THEN SE(e, s, i) ELSE 0) -
  (IF mat THEN SumOver(el.sl, LAMBDA j : mm.off[el.ed[j]] * KE(e, s, i, j)) ELSE 0)

KItem(mm, el, e, s, f, g) ==
  SumOver(el.dep[f], LAMBDA i : SumOver(el.dep[g], LAMBDA j : Lin(mm, el.ed[i], f) * Lin(mm, el.ed[j], g) * KE(e, s, i, j)))
RItem(mm, el, e, s, f, vec, mat) ==
  SumOver(el.dep[f], LAMBDA i : Lin(mm, el.ed[i], f) * NetLoad(mm, el, e, s, i, vec, mat))
\* the reaction in a constrained unknown: the net load on it
FItem(mm, el, e, s, k, vec, mat) ==
  SumOver({i \in 1..Len(el.ed) : el.ed[i] = k}, LAMBDA i : NetLoad(mm, el, e, s, i, vec, mat))

(* ---- design properties ---- *)
OnlyFree == m.phase = "run" => \A k \in Keys(m) : \A x \in Keys(m) : m.res[k].lin[x] # 0 => x \in Free(m)
Composed == m.phase = "run" =>
  \A k \in Slaves(m) : \A x \in Keys(m) :
     m.res[k].lin[x] = SumSeq(m.all[k].ms, 1, LAMBDA t : t.a * m.res[t.k].lin[x])
OffComposed == m.phase = "run" =>
  \A k \in Slaves(m) : m.res[k].off = C0(m.all[k], m.val) + SumSeq(m.all[k].ms, 1, LAMBDA t : t.a * m.res[t.k].off)
=============================================================================
