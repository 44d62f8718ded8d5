----------------------------- MODULE MCSystems -----------------------------
EXTENDS Systems, Json
CONSTANTS Depth, Random
VARIABLES ph, els, h, n          \* phases of the systems, the elements in each of them, history
vars == <<c, ms, ph, els, h, n>>
Sys(nn, nf, elms, fix, pres, nA, nB, nC, reac) == [kind |-> "sys", nn |-> nn, nf |-> nf, elms |-> elms, fix |-> fix, pres |-> pres, nA |-> nA, nB |-> nB, nC |-> nC, reac |-> reac]
Configs == {Sys(2, 1, <<<<1, 2>>>>, <<>>, <<>>, 1, 1, 1, TRUE),
            Sys(3, 1, <<<<1, 2>>, <<2, 3>>>>, <<1>>, <<<<3, 2>>>>, 1, 2, 1, TRUE),
            Sys(3, 1, <<<<3, 1>>, <<2, 3>>>>, <<>>, <<<<2, 3>>>>, 2, 2, 1, FALSE),
            Sys(2, 2, <<<<2, 1>>>>, <<2>>, <<<<3, -1>>>>, 2, 1, 0, FALSE)}
\* element matrices and vectors
Mat(k, m) == [x \in 1..(m * m) |-> IF k = 0 THEN (IF ((x - 1) \div m) = ((x - 1) % m) THEN 2 ELSE -1) ELSE ((x * (k + 2)) % 7) - 2]
Vec(k, m) == [x \in 1..m |-> ((x * k + 3) % 5) - 1]
Element(e, k, lhs, rhs, mA, mb, mc) ==
  LET m == Len(c.elms[e]) * c.nf IN
  [e |-> e, lhs |-> lhs, rhs |-> rhs, A |-> [q \in 1..mA |-> Mat(k + q - 1, m)], b |-> [q \in 1..mb |-> Vec(k + q, m)], c |-> [q \in 1..mc |-> k + q]]
Shapes == IF Random THEN {<<l, r, a, b, s>> \in BOOLEAN \X BOOLEAN \X (0..(c.nA)) \X (0..(c.nB + 1)) \X (0..c.nC) :
                           (c.nA = 1 /\ c.nB > 0 => b >= 1) /\ (l => a >= 1) /\ (a + b > 0)}
          ELSE {<<TRUE, FALSE, c.nA, c.nB, c.nC>>, <<FALSE, FALSE, 0, c.nB, c.nC>>, <<TRUE, TRUE, 1, c.nB, 0>>}
Init == /\ c \in Configs /\ ms = <<None, None>> /\ ph = <<"none", "none">> /\ els = <<<<>>, <<>>>> /\ h = <<>> /\ n = (IF Random THEN -1 ELSE 0)
Kept == [e |-> 0]
HasKept(q) == \E k \in 1..Len(q) : q[k].e = 0
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Nothing == UNCHANGED <<ms, ph, els>>
Log(op) == h' = (IF Random THEN Append(h, op) ELSE h)
Create(s) == /\ ph[s] = "none" /\ ms' = [ms EXCEPT ![s] = New] /\ ph' = [ph EXCEPT ![s] = "new"] /\ els' = [els EXCEPT ![s] = <<>>] /\ Log(<<"new", s>>)
Assoc(s) == /\ ph[s] # "none" /\ c.nA > 1 /\ \E a \in Pick(1..c.nA), b \in Pick(1..c.nB) :
               /\ ms[s].as[a] = 0 /\ ms' = [ms EXCEPT ![s].as[a] = b] /\ Log(<<"asc", s, a, b>>)
            /\ UNCHANGED <<ph, els>>
Initialize(s) == /\ ph[s] \in {"new", "fin"} /\ \E l \in IF ph[s] = "new" THEN {1} ELSE Pick({0, 1}) :
                    /\ ms' = [ms EXCEPT ![s] = Initialized(@, l)] /\ els' = [els EXCEPT ![s] = IF l = 1 THEN <<>> ELSE <<Kept>>] /\ Log(<<"ini", s, l>>)
                    /\ ph' = [ph EXCEPT ![s] = IF l = 1 THEN "ini" ELSE "rhs"]
Assemble(s) == /\ ph[s] \in {"ini", "rhs"} /\ \E e \in Pick(1..Len(c.elms)), k \in Pick(0..(IF Random THEN 4 ELSE 1)), p \in Pick(Shapes) :
                  \E el \in {Element(e, k, p[1], p[2] \/ ph[s] = "rhs", p[3], p[4], p[5])} :
                    /\ ms' = [ms EXCEPT ![s] = TLCEval(Add(@, el))] /\ els' = [els EXCEPT ![s] = Append(@, el)] /\ Log(<<"elm", s, el>>)
               /\ UNCHANGED ph
Finalize(s) == /\ ph[s] \in {"ini", "rhs"} /\ ph' = [ph EXCEPT ![s] = "fin"] /\ UNCHANGED <<ms, els>> /\ Log(<<"fin", s, IF ph[s] = "ini" THEN 1 ELSE 0>>)
Copy(s) == LET o == 3 - s IN /\ ph[s] \in {"none", "new", "fin"} /\ ph[o] = "fin" /\ ms' = [ms EXCEPT ![s] = Copied(ms[o])] /\ ph' = [ph EXCEPT ![s] = "fin"]
                             /\ els' = [els EXCEPT ![s] = els[o]] /\ Log(<<"cpy", s, o>>)
AddTo(s) == LET o == 3 - s IN /\ ph[s] = "fin" /\ ph[o] = "fin" /\ ms' = [ms EXCEPT ![s] = TLCEval(Added(@, ms[o]))] /\ UNCHANGED ph
                              /\ els' = [els EXCEPT ![s] = @ \o els[o]] /\ Log(<<"add", s, o>>)
Reduce(s) == /\ Random /\ ph[s] = "fin" /\ ms[s].as # <<>> /\ \E ext \in Pick(SUBSET (1..c.nn)), xs \in Pick({1, 2, 3}), a \in Pick(1..(c.nA + 1)) :
                   /\ ext # {} /\ (IF a <= c.nA THEN ms[s].as[a] = 1 ELSE TRUE)
                   /\ Log(<<"con", s, a, SelectSeq([q \in 1..c.nn |-> q], LAMBDA q : q \in ext), [q \in 1..(Cardinality(ext) * c.nf) |-> q - xs]>>)
             /\ Nothing
Setup == n = -1 /\ c' \in {RandomElement(Configs)} /\ n' = 0 /\ UNCHANGED <<ms, ph, els, h>>
Next == \/ n = -1 /\ Setup
        \/ n >= 0 /\ n < Depth /\ n' = n + 1 /\ UNCHANGED c
           /\ \E s \in 1..2 : (Random \/ s = 1 \/ ph[1] = "fin") /\ (Create(s) \/ Assoc(s) \/ Initialize(s) \/ Assemble(s) \/ Finalize(s) \/ Copy(s) \/ AddTo(s) \/ Reduce(s))
Spec == Init /\ [][Next]_vars
Emit == IF Random /\ n = Depth THEN PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>) ELSE TRUE

\* a system is the sum of the contributions of its elements, whatever their order, and whether they were copied or added from another system
RECURSIVE From(_, _)
From(a, q) == IF q = <<>> THEN a ELSE From(TLCEval(Add(a, q[Len(q)])), SubSeq(q, 1, Len(q) - 1))
SumOfElements == \A s \in 1..2 : (c.nA = 1 /\ ph[s] # "none" /\ ~HasKept(els[s])) =>
                    LET r == TLCEval(From(New, els[s])) IN r.A = ms[s].A /\ r.b = ms[s].b /\ r.c = ms[s].c /\ r.R = ms[s].R
MatricesOfElements == \A s \in 1..2 : (ph[s] # "none" /\ ~HasKept(els[s])) => TLCEval(From(New, els[s])).A = ms[s].A
\* matrices of one slot never change the other one: all contributions to zero slots are zero
Untouched == \A s \in 1..2 : ph[s] = "none" => ms[s] = None
Symmetric == \A s \in 1..2 : ph[s] # "none" /\ ~HasKept(els[s]) /\ (\A k \in 1..Len(els[s]) : els[s][k].A = <<>> \/ els[s][k].A[1] = Mat(0, Len(Dofs(els[s][k].e)))) =>
               \A i, j \in 1..Neq : ms[s].A[1][i][j] = ms[s].A[1][j][i]
\* the condensed system is equivalent to the full one
Equivalent == \A s \in 1..2 : ph[s] = "fin" => \A ext \in SUBSET (1..c.nn) : LET q == SelectSeq([k \in 1..c.nn |-> k], LAMBDA k : k \in ext) IN
  Possible(q) => LET A == ms[s].A[1]   b == ms[s].b[1]   r == TLCEval(Condensed(A, b, q))
                     xe == [k \in 1..Len(r.i2) |-> 2 * k - 3]   xi == TLCEval(Recovered(A, b, r, xe))
                     res(i) == Sum([k \in 1..Len(r.i1) |-> A[i][r.i1[k]] * xi[k]]) + r.det * (Sum([k \in 1..Len(r.i2) |-> A[i][r.i2[k]] * xe[k]]) - b[i])
                 IN /\ \A k \in 1..Len(r.i1) : res(r.i1[k]) = 0
                    /\ \A k \in 1..Len(r.i2) : res(r.i2[k]) = Sum([j \in 1..Len(r.i2) |-> r.A[k][j] * xe[j]]) - r.b[k]

\* block matrices
B(bas, cmp, nul) == [bas |-> bas, cmp |-> cmp, nul |-> nul]
Layouts == {<<B(1, 1, FALSE)>>, <<B(1, 2, FALSE), B(1, 1, FALSE)>>, <<B(1, 2, FALSE), B(2, 1, TRUE)>>, <<B(2, 1, FALSE), B(1, 2, FALSE), B(2, 2, FALSE)>>,
            <<B(1, 1, FALSE), B(1, 2, FALSE), B(2, 1, FALSE)>>, <<B(1, 1, FALSE), B(1, 1, FALSE), B(1, 1, FALSE), B(2, 1, TRUE)>>}
ASSUME \A bl \in Layouts : \A nen \in {<<2, 1>>, <<3, 2>>} : Bijection(bl, nen)
ASSUME \A k \in 1..4 : /\ Len(OffDiag(k, TRUE)) * 2 = k * (k - 1) /\ Len(OffDiag(k, FALSE)) = k * (k - 1)
                       /\ \A s \in BOOLEAN : Cardinality(Range(OffDiag(k, s))) = Len(OffDiag(k, s))
\* symmetric blocks give symmetric matrices; every given value is present once, the mirrored ones twice
Vals(bl, nen, sym) == LET m == Len(bl)   off == OffDiag(m, sym) IN
   [k \in 1..(m + Len(off)) |-> IF k <= m THEN [x \in 1..(Size(bl, nen, k) * Size(bl, nen, k)) |-> LET z == Size(bl, nen, k)  r == (x - 1) \div z  s == (x - 1) % z IN 100 * k + (IF r < s THEN r * 10 + s ELSE s * 10 + r)]
                                ELSE [x \in 1..(Size(bl, nen, off[k - m][1]) * Size(bl, nen, off[k - m][2])) |-> 1000 * k + x]]
ASSUME \A bl \in Layouts : \A nen \in {<<2, 1>>, <<1, 2>>} :
         LET off == OffDiag(Len(bl), TRUE)   N == Newton(bl, nen, TRUE, Vals(bl, nen, TRUE), [k \in 1..Len(off) |-> 1])   S == Newton(bl, nen, TRUE, Vals(bl, nen, TRUE), [k \in 1..Len(off) |-> -1]) IN
         \A r, s \in 1..Total(bl, nen) : N[r][s] = N[s][r] /\ (S[r][s] = S[s][r] \/ S[r][s] = -S[s][r]) /\ Abs(S[r][s]) = N[r][s]
ASSUME Det(<<<<2, -1, 0>>, <<-1, 2, -1>>, <<0, -1, 2>>>>) = 4
ASSUME NormSums(<<2, 1>>, <<<<1, 2, 3>>, <<4, 5, 6>>>>) = <<<<5, 7>>, <<9>>>>
=============================================================================
