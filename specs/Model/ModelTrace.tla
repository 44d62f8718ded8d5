---------------------------- MODULE ModelTrace ----------------------------
(* Recorded executions of the implementation are behaviours of Model. *)
EXTENDS Model, VF

VARIABLES t, i, num    \* num: the equation numbers the implementation chose, and the elements

vars == <<c, m, t, i, num>>
Ev == Traces[t].s[i + 1]
None == [first |-> <<>>, eq |-> NoEqs, el |-> <<>>]

TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ num = None
         /\ Init(Traces[t].c)
         /\ Traces[t].s[1].op = "begin"

Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)

(* ---- building ---- *)
DoFix(e) == Same2("inv", e.inv, InvalidDirs(e.p, e.d)) /\ m' = FixDofs(m, e.p, e.n, e.d)
DoPresc(e) == LET r == Prescribe(m, e.p, e.n, e.d, e.code, e.ovr) IN Same2("ign", e.ign, r.ign) /\ m' = r.m
DoMpc(e) == LET r == AddEq(m, e.p, e.k, [c0 |-> e.c0, ms |-> AddMasters(<<>>, e.ms), code |-> e.code], e.ovr)
            IN  Same2("ok", e.ok, r.ok) /\ m' = r.m
DoLag(e) == LET r == AddLag(m, e.p, e.e, e.n, e.nn) IN Same2("ok", e.ok, r.ok) /\ m' = r.m

\* all the given (existing) unknowns of a node are fixed in the patch
DoIsFixed(e) == Same2("r", e.r, \A d \in {x \in Digits(e.d) : x <= c.pat[e.p].nf} : <<m.nod[e.p][e.n], d>> \in m.fix[e.p])
                /\ UNCHANGED m

(* ---- preparing ---- *)
First(mm) == LET RECURSIVE F(_)
                 F(n) == IF n = 0 THEN <<1>> ELSE LET q == F(n-1) IN Append(q, q[n] + NDof(mm, n))
             IN  F(NNod(mm))
DofNo(first, k) == first[k[1]] + k[2] - 1
\* the observed numbering, one number per free unknown
Numbering(e, mm) == [k \in Free(mm) |-> e.eqs[k[1]][k[2]]]
Reach(mm) ==
  LET RECURSIVE R(_)
      R(k) == IF k \in Fixed(mm) THEN {} ELSE IF k \notin DOMAIN mm.all THEN {k}
              ELSE UNION {R(mm.all[k].ms[j].k) : j \in 1..Len(mm.all[k].ms)}
  IN  TLCEval([k \in Keys(mm) |-> R(k)])
TableOK(mm, first, tab, k) ==
  LET S == {j \in 1..Len(tab) : tab[j].d = DofNo(first, k)}
      x == tab[CHOOSE j \in S : TRUE]
  IN  /\ Cardinality(S) = 1
      /\ x.own = x.d
      /\ Same2("c0", x.c0, mm.off[k])
      /\ \A f \in Keys(mm) :
           Same2(<<"weight", k, f>>, SumOver({j \in 1..Len(x.ms) : x.ms[j].d = DofNo(first, f)}, LAMBDA j : x.ms[j].a),
                 mm.res[k].lin[f])
TablesOK(mm, first, tab) ==
  /\ Same2("tables", {tab[j].d : j \in 1..Len(tab)}, {DofNo(first, k) : k \in Slaves(mm)})
  /\ \A k \in Slaves(mm) : TableOK(mm, first, tab, k)

Sets(q) == [j \in 1..Len(q) |-> Range(q[j])]
NumbersOK(e, mm) ==
  LET first == TLCEval(First(mm))
      keys == TLCEval(Keys(mm))
      eq == TLCEval(Numbering(e, mm))
      free == DOMAIN eq
      fixed == Fixed(mm)
      rep == TLCEval([k \in keys |-> IF k \in free THEN eq[k] ELSE IF k \in fixed THEN 0 ELSE -DofNo(first, k)])
      reach == Reach(mm)
      RE(k) == {eq[f] : f \in reach[k]}
      ME(k) == {eq[f] : f \in {x \in free : mm.res[k].lin[x] # 0}}
      el == Elements(mm)
      Act(n) == {d \in Range(el[n].ed) : d # <<0, 0>>}
      L(n) == {f \in free : el[n].dep[f] # {}}
      May == UNION {UNION {{<<a, b>> : a \in RE(k), b \in RE(l)} : k \in Act(n), l \in Act(n)} : n \in 1..NElm}
      Must == UNION {{<<eq[f], eq[g]>> : f \in L(n), g \in L(n)} : n \in 1..NElm}
      Cpl(q) == UNION {{<<a, b>> : b \in Range(q[a])} : a \in 1..Len(q)}
  IN  /\ Same2("nodes", e.nnod, NNod(mm)) /\ Same2("elements", e.nel, NElm)
      /\ Same2("unknowns", e.ndof, Cardinality(keys)) /\ Same2("equations", e.neq, Cardinality(free))
      /\ Same2("constraints", e.nceq, Cardinality(Slaves(mm)))
      /\ Same2("specified", e.nspec, Cardinality(keys \ free))
      /\ Same2("numbers", {eq[f] : f \in free}, 1..Cardinality(free))
      /\ Same2("node equations", e.eqs, [n \in 1..NNod(mm) |-> [d \in 1..NDof(mm, n) |-> rep[<<n, d>>]]])
      /\ Same2("node dofs", e.dofs, [n \in 1..NNod(mm) |-> <<first[n], first[n+1] - 1>>])
      /\ Same2("getEquation", e.ne, [n \in 1..NNod(mm) |-> [d \in 1..NDof(mm, n)+1 |->
                 IF d > NDof(mm, n) THEN -2 ELSE IF rep[<<n, d>>] > 0 THEN rep[<<n, d>>] ELSE 0]])
      /\ Same2("node of dof", e.nd, [d \in 1..Cardinality(keys) |-> CHOOSE k \in keys : DofNo(first, k) = d])
      /\ Same2("node of equation", e.en, [q \in 1..Cardinality(free) |-> CHOOSE k \in free : eq[k] = q])
      /\ Same2("element nodes", e.elmn, [n \in 1..NElm |-> ElmAt(mm, n)])
      /\ Same2("element equations", e.elme, [n \in 1..NElm |-> [j \in 1..Len(el[n].ed) |->
                 IF el[n].ed[j] = <<0, 0>> THEN 0 ELSE rep[el[n].ed[j]]]])
      /\ \A n \in 1..NElm : LET u == Range(e.eluq[n])
                            IN  IF u \subseteq UNION {RE(k) : k \in Act(n)} /\ UNION {ME(k) : k \in Act(n)} \subseteq u THEN TRUE
                                ELSE Mismatch(t, i+1, <<"unique equations", n, u>>, UNION {ME(k) : k \in Act(n)})
      /\ LET C == Cpl(e.cpl) IN IF Must \subseteq C /\ C \subseteq May /\ Len(e.cpl) = Cardinality(free) THEN TRUE
                                ELSE Mismatch(t, i+1, <<"couplings", C>>, <<Must, May>>)
      /\ Same2("compressed couplings", Sets(e.csr), Sets(e.cpl))
      /\ \A n \in 1..Len(e.csr) : Len(e.csr[n]) = Cardinality(Range(e.csr[n]))
      /\ Same2("out of bounds", e.oob, FALSE)
      /\ Same2("time dependent", e.tdd, \E p \in Pats : \E k \in DOMAIN m.eqs[p] : m.eqs[p][k].code > 0)
      /\ LET disp == {f \in free : \E p \in Pats : \E j \in 1..Len(c.pat[p].nodes) : mm.nod[p][j] = f[1]}
         IN  /\ Same2("equations of type D", e.freeD, Cardinality(disp))
             /\ Same2("first equations of type D", e.free1, Cardinality({f \in disp : f[2] = 1}))
      /\ TablesOK(mm, first, e.tab)
DoPrep(e) ==
  LET mm == TLCEval(Prepared(m, e.v))
  IN  /\ m' = mm
      /\ Same2("ok", e.ok, TRUE)
      /\ NumbersOK(e, mm)
      /\ num' = [first |-> First(mm), eq |-> Numbering(e, mm), el |-> Elements(mm)]

(* ---- running ---- *)
DoUpd(e) ==
  LET mm == TLCEval(Updated(m, e.v, e.kind, LAMBDA k : DofNo(num.first, k), e.s))
  IN  Same2("ok", e.ok, TRUE) /\ TablesOK(mm, num.first, e.tab) /\ m' = mm

X(n, s) == ((n*3 + s) % 8) - 4
DoExp(e) ==
  LET ks == TLCEval(Keys(m))
      Value(k, sc) == IF k \in Free(m) THEN X(num.eq[k], e.s)
                      ELSE IF k \in Fixed(m) THEN 0
                      ELSE sc * m.off[k] + SumOver(Free(m), LAMBDA f : m.res[k].lin[f] * X(num.eq[f], e.s))
      K(d) == CHOOSE k \in ks : DofNo(num.first, k) = d
      N == 1..Cardinality(ks)
  IN  /\ Same2("ok", e.ok, TRUE)
      /\ Same2("u", e.u, [d \in N |-> Value(K(d), e.sc)])
      /\ Same2("u0", e.u0, [d \in N |-> Value(K(d), 0)])
      /\ Same2("back", e.back, [q \in 1..Cardinality(Free(m)) |-> X(q, e.s)])
      /\ Same2("w", e.w, [d \in N |-> IF K(d) \in Free(m) THEN Value(K(d), 1) ELSE Off(m, K(d))])
      /\ UNCHANGED m

DoAsm(e) ==
  LET free == TLCEval(Free(m))
      EqKey == TLCEval([q \in 1..Cardinality(free) |-> CHOOSE f \in free : num.eq[f] = q])
      Items == 1..Len(e.items)
      \* the contribution of one item to the matrix, the right-hand side and the reactions
      IK(x, f, g) == IF x.w \in {"k", "m"} THEN KItem(m, num.el[x.e], x.e, e.s, f, g) ELSE 0
      IR(x, f) == CASE x.w = "k" -> IF e.fmt = 3 THEN 0 ELSE RItem(m, num.el[x.e], x.e, e.s, f, FALSE, TRUE)
                    [] x.w = "r" -> RItem(m, num.el[x.e], x.e, e.s, f, FALSE, TRUE)
                    [] x.w = "v" -> RItem(m, num.el[x.e], x.e, e.s, f, TRUE, FALSE)
                    [] x.w = "n" -> SumOver({k \in DOMAIN m.res : k[1] = x.e}, LAMBDA k : m.res[k].lin[f] * SE(x.e, e.s, k[2]))
                    [] x.w = "a" -> SumOver(DOMAIN m.res, LAMBDA k : m.res[k].lin[f] * SE(x.e, e.s, DofNo(num.first, k)))
                    [] OTHER -> 0
      IF1(x, k) == CASE x.w \in {"k", "r"} -> FItem(m, num.el[x.e], x.e, e.s, k, FALSE, TRUE)
                     [] x.w = "v" -> FItem(m, num.el[x.e], x.e, e.s, k, TRUE, FALSE)
                     [] x.w = "n" -> IF k[1] = x.e THEN SE(x.e, e.s, k[2]) ELSE 0
                     [] OTHER -> 0
      Kent(a, b) == IF e.fmt = 3 /\ a # b THEN 0 ELSE SumOver(Items, LAMBDA j : IK(e.items[j], EqKey[a], EqKey[b]))
      N == 1..Cardinality(free)
      Key(d) == CHOOSE k \in DOMAIN m.res : DofNo(num.first, k) = d
  IN  /\ Same2("ok", e.ok, TRUE)
      /\ \A a \in N : Same2(<<"row", a>>, e.K[a], [b \in N |-> Kent(a, b)])
      /\ Same2("rhs", e.rhs, [a \in N |-> SumOver(Items, LAMBDA j : IR(e.items[j], EqKey[a]))])
      /\ Same2("reactions", e.rf, [d \in 1..Cardinality(DOMAIN m.res) |->
                 LET k == Key(d) IN IF k \in free THEN 0 ELSE SumOver(Items, LAMBDA j : IF1(e.items[j], k))])
      /\ UNCHANGED m

\* the values of a node in columns of a rectangular matrix
DoCol(e) ==
  /\ Same2("ok", e.ok, TRUE)
  /\ Same2("K", e.K, [q \in 1..Cardinality(Free(m)) |-> [d \in 1..NDof(m, e.n)+1 |->
        IF d = 1 THEN 0 ELSE LET f == CHOOSE f \in Free(m) : num.eq[f] = q
                             IN  m.res[<<e.n, d-1>>].lin[f] * SE(e.n, e.s, d-1)]])
  /\ UNCHANGED m

Act(e) ==
  CASE e.op = "fix"   -> DoFix(e) /\ UNCHANGED num
    [] e.op = "presc" -> DoPresc(e) /\ UNCHANGED num
    [] e.op = "mpc"   -> DoMpc(e) /\ UNCHANGED num
    [] e.op = "lag"   -> DoLag(e) /\ UNCHANGED num
    [] e.op = "prep"  -> DoPrep(e)
    [] e.op = "upd"   -> DoUpd(e) /\ UNCHANGED num
    [] e.op = "exp"   -> DoExp(e) /\ UNCHANGED num
    [] e.op = "isf"   -> DoIsFixed(e) /\ UNCHANGED num
    [] e.op = "col"   -> DoCol(e) /\ UNCHANGED num
    [] e.op = "asm"   -> DoAsm(e) /\ UNCHANGED num
    [] OTHER -> FALSE

TNext == /\ i < Len(Traces[t].s)
         /\ Act(Ev)
         /\ i' = i + 1 /\ t' = t /\ c' = c
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
