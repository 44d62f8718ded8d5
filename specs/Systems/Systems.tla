------------------------------ MODULE Systems ------------------------------
(***************************************************************************)
(* Algebraic systems of several matrices, vectors and scalars, assembled   *)
(* from elements; systems which are copied and added; static condensation; *)
(* nodal forces, reactions and norms. Also the block matrices of elements. *)
(* Unknown number (node-1)*nf + dof. fix: unknowns which are zero;         *)
(* pres: <<unknown, value>>.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c, ms
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Range(q) == {q[j] : j \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
NDof == c.nn * c.nf
Constrained == Range(c.fix) \cup {c.pres[k][1] : k \in 1..Len(c.pres)}
Eqs == SelectSeq([d \in 1..NDof |-> d], LAMBDA d : d \notin Constrained)     \* the unknowns, in the order of their equations
Neq == Len(Eqs)
Value(d) == LET S == {k \in 1..Len(c.pres) : c.pres[k][1] = d} IN IF S = {} THEN 0 ELSE c.pres[CHOOSE k \in S : TRUE][2]
Dofs(e) == [i \in 1..(Len(c.elms[e]) * c.nf) |-> (c.elms[e][(i - 1) \div c.nf + 1] - 1) * c.nf + ((i - 1) % c.nf) + 1]
Pos(q, d) == {i \in 1..Len(q) : q[i] = d}
Zero == [A |-> [k \in 1..c.nA |-> [i \in 1..Neq |-> [j \in 1..Neq |-> 0]]], b |-> [k \in 1..c.nB |-> [i \in 1..Neq |-> 0]],
         c |-> [k \in 1..c.nC |-> 0], R |-> [d \in 1..NDof |-> 0]]
None == [A |-> <<>>, b |-> <<>>, c |-> <<>>, R |-> <<>>, as |-> <<>>, live |-> FALSE]
New == Zero @@ [as |-> [k \in 1..c.nA |-> IF c.nA = 1 /\ c.nB > 0 THEN 1 ELSE 0], live |-> TRUE]
Initialized(a, lhs) == [a EXCEPT !.A = IF lhs > 0 THEN Zero.A ELSE @, !.b = Zero.b, !.c = Zero.c, !.R = Zero.R]

(* Contributions. el = [e, lhs, rhs, A, b, c]: element number; with matrices; right-hand sides only; matrices, vectors and scalars of the element *)
\* matrix k goes to system matrix k, vector k to system vector k
At(M, D, i, j) == LET n == Len(D) IN Sum([x \in 1..n |-> IF D[x] # i THEN 0 ELSE Sum([y \in 1..n |-> IF D[y] = j THEN M[(x - 1) * n + y] ELSE 0])])
In(v, D, i) == Sum([x \in 1..Len(D) |-> IF D[x] = i THEN v[x] ELSE 0])
\* what the prescribed values contribute to the load
Moved(M, D, i) == LET n == Len(D) IN Sum([x \in 1..n |-> IF D[x] # i THEN 0 ELSE Sum([y \in 1..n |-> -(M[(x - 1) * n + y] * Value(D[y]))])])
Add(a, el) ==
  LET D == Dofs(el.e)
      hasA(k) == el.lhs /\ k <= Len(el.A)
      hasb(k) == k <= Len(el.b)
  IN [a EXCEPT
       !.A = TLCEval([k \in 1..c.nA |-> IF ~hasA(k) \/ el.rhs THEN a.A[k]
                                          ELSE [i \in 1..Neq |-> [j \in 1..Neq |-> a.A[k][i][j] + At(el.A[k], D, Eqs[i], Eqs[j])]]]),
       !.b = TLCEval([k \in 1..c.nB |-> [i \in 1..Neq |-> a.b[k][i] + (IF hasb(k) THEN In(el.b[k], D, Eqs[i]) ELSE 0)
                                             + Sum([m \in 1..c.nA |-> IF a.as[m] = k /\ hasA(m) THEN Moved(el.A[m], D, Eqs[i]) ELSE 0])]]),
       !.c = TLCEval([k \in 1..c.nC |-> a.c[k] + (IF k <= Len(el.c) THEN el.c[k] ELSE 0)]),
       !.R = TLCEval([d \in 1..NDof |-> IF ~c.reac \/ c.nA # 1 \/ c.nB = 0 \/ d \notin Constrained THEN 0
                                          ELSE a.R[d] + In(el.b[1], D, d) + (IF hasA(1) THEN Moved(el.A[1], D, d) ELSE 0)])]
\* associated vectors are not copied, except when there is one matrix
Copied(b) == [b EXCEPT !.as = [k \in 1..c.nA |-> IF c.nA = 1 /\ c.nB > 0 THEN 1 ELSE 0]]
Added(a, b) == [a EXCEPT !.A = TLCEval([k \in 1..c.nA |-> [i \in 1..Neq |-> [j \in 1..Neq |-> a.A[k][i][j] + b.A[k][i][j]]]]),
                         !.b = TLCEval([k \in 1..c.nB |-> [i \in 1..Neq |-> a.b[k][i] + b.b[k][i]]]),
                         !.c = TLCEval([k \in 1..c.nC |-> a.c[k] + b.c[k]]), !.R = TLCEval([d \in 1..NDof |-> a.R[d] + b.R[d]])]

----------------------------------------------------------------------------
(* Static condensation to the unknowns of the retained nodes *)
RECURSIVE Det(_)
Minor(M, i, j) == LET n == Len(M) IN [x \in 1..(n - 1) |-> [y \in 1..(n - 1) |-> M[IF x < i THEN x ELSE x + 1][IF y < j THEN y ELSE y + 1]]]
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE Sum([j \in 1..Len(M) |-> IF M[1][j] = 0 THEN 0 ELSE (IF (j % 2) = 1 THEN 1 ELSE -1) * M[1][j] * Det(TLCEval(Minor(M, 1, j)))])
Adj(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> (IF ((i + j) % 2) = 0 THEN 1 ELSE -1) * Det(TLCEval(Minor(M, j, i)))]])
Retained(ext) == {i \in 1..Neq : ((Eqs[i] - 1) \div c.nf) + 1 \in Range(ext)}
Possible(ext) == /\ \A n \in Range(ext) : n \in 1..c.nn /\ \A d \in 1..c.nf : (n - 1) * c.nf + d \notin Constrained
                 /\ Retained(ext) # {} /\ Cardinality(Retained(ext)) < Neq
Seq2(S) == SelectSeq([i \in 1..Neq |-> i], LAMBDA i : i \in S)
Condensed(A, b, ext) ==
  LET I2 == Seq2(Retained(ext))   I1 == Seq2((1..Neq) \ Retained(ext))
      A11 == TLCEval([i \in 1..Len(I1) |-> [j \in 1..Len(I1) |-> A[I1[i]][I1[j]]]])
      D == Det(A11)   X == Adj(A11)
      T(i, j) == Sum([k \in 1..Len(I1) |-> A[I2[i]][I1[k]] * Sum([l \in 1..Len(I1) |-> X[k][l] * A[I1[l]][I2[j]]])])
      U(i) == Sum([k \in 1..Len(I1) |-> A[I2[i]][I1[k]] * Sum([l \in 1..Len(I1) |-> X[k][l] * b[I1[l]]])])
  IN [det |-> D, i1 |-> I1, i2 |-> I2, x |-> X,     \* times det:
      A |-> TLCEval([i \in 1..Len(I2) |-> [j \in 1..Len(I2) |-> D * A[I2[i]][I2[j]] - T(i, j)]]),
      b |-> TLCEval([i \in 1..Len(I2) |-> D * b[I2[i]] - U(i)])]
\* times det: the internal unknowns, for given values of the retained ones
Recovered(A, b, r, xe) ==
  LET L == TLCEval([l \in 1..Len(r.i1) |-> b[r.i1[l]] - Sum([j \in 1..Len(r.i2) |-> A[r.i1[l]][r.i2[j]] * xe[j]])])
  IN TLCEval([k \in 1..Len(r.i1) |-> Sum([l \in 1..Len(r.i1) |-> r.x[k][l] * L[l]])])

----------------------------------------------------------------------------
(* Forces in the given nodes, from element vectors; norms in groups *)
Contributes(el, nodes) == \E k \in 1..Len(c.elms[el.e]) : c.elms[el.e][k] \in Range(nodes)
NodalForce(els, n, d) == -Sum([k \in 1..Len(els) |-> In(els[k].b[1], Dofs(els[k].e), (n - 1) * c.nf + d)])
RECURSIVE Group(_, _)
Group(sizes, i) == IF sizes = <<>> THEN <<>> ELSE <<[j \in 1..Head(sizes) |-> i + j]>> \o Group(Tail(sizes), i + Head(sizes))
NormSums(sizes, vals) == LET G == Group(sizes, 0) IN [g \in 1..Len(G) |-> [j \in 1..Len(G[g]) |-> Sum([e \in 1..Len(vals) |-> IF G[g][j] <= Len(vals[e]) THEN vals[e][G[g][j]] ELSE 0])]]
\* signed squares of the final values
Final(op, x) == CASE op = "none" -> x [] op = "abs" -> Abs(x) [] op = "sqrt" -> x

----------------------------------------------------------------------------
(* Block matrices of an element. bl: sequence of [bas, cmp, nul]; nen[bas] nodes; the unknowns are ordered by basis, node, block, component.
   Off-diagonal blocks: in symmetric storage (i,j), i < j, row by row; otherwise all (i,j), i # j, row by row *)
CmpOf(bl, bs) == Sum([k \in 1..Len(bl) |-> IF bl[k].bas = bs THEN bl[k].cmp ELSE 0])
Offset(bl, nen, k) == Sum([s \in 1..(bl[k].bas - 1) |-> nen[s] * CmpOf(bl, s)]) + Sum([m \in 1..(k - 1) |-> IF bl[m].bas = bl[k].bas THEN bl[m].cmp ELSE 0])
Place(bl, nen, k, x) == Offset(bl, nen, k) + CmpOf(bl, bl[k].bas) * ((x - 1) \div bl[k].cmp) + ((x - 1) % bl[k].cmp) + 1
Size(bl, nen, k) == bl[k].cmp * nen[bl[k].bas]
Total(bl, nen) == Sum([k \in 1..Len(bl) |-> Size(bl, nen, k)])
RECURSIVE Pairs(_, _, _, _)
Pairs(n, sym, i, j) == IF i > n THEN <<>> ELSE IF j > n THEN Pairs(n, sym, i + 1, IF sym THEN i + 2 ELSE 1)
                       ELSE (IF i = j THEN <<>> ELSE <<<<i, j>>>>) \o Pairs(n, sym, i, j + 1)
OffDiag(n, sym) == Pairs(n, sym, 1, IF sym THEN 2 ELSE 1)
\* vals[k]: the diagonal blocks, then the off-diagonal ones (row by row), with flags sg: 0, 1 (symmetric), -1 (skew-symmetric)
Where(bl, nen) == TLCEval([k \in 1..Len(bl) |-> [x \in 1..Size(bl, nen, k) |-> Place(bl, nen, k, x)]])
Newton(bl, nen, sym, vals, sg) ==
  LET n == Len(bl)   W == Where(bl, nen)   N == Total(bl, nen)   off == OffDiag(n, sym)
      blk(r) == CHOOSE k \in 1..n : r \in Range(W[k])
      idx(r) == CHOOSE x \in 1..Len(W[blk(r)]) : W[blk(r)][x] = r
      B == TLCEval([r \in 1..N |-> blk(r)])   X == TLCEval([r \in 1..N |-> idx(r)])
      entry(r, s) ==
        LET i == B[r]   j == B[s] IN
        IF i = j THEN (IF bl[i].nul THEN 0 ELSE vals[i][(X[r] - 1) * Len(W[i]) + X[s]])
        ELSE LET P == {k \in 1..Len(sg) : off[k] = <<i, j>>}   Q == {k \in 1..Len(sg) : off[k] = <<j, i>> /\ sg[k] # 0} IN
             IF P # {} THEN LET k == CHOOSE k \in P : TRUE IN vals[n + k][(X[r] - 1) * Len(W[j]) + X[s]]
             ELSE IF Q # {} THEN LET k == CHOOSE k \in Q : TRUE IN sg[k] * vals[n + k][(X[s] - 1) * Len(W[i]) + X[r]]
             ELSE 0
  IN TLCEval([r \in 1..N |-> [s \in 1..N |-> entry(r, s)]])
Load(bl, nen, vecs) ==
  LET W == Where(bl, nen)   N == Total(bl, nen) IN
  TLCEval([r \in 1..N |-> LET k == CHOOSE k \in 1..Len(bl) : r \in Range(W[k]) IN vecs[k][CHOOSE x \in 1..Len(W[k]) : W[k][x] = r]])
\* each unknown of the element belongs to exactly one block
Bijection(bl, nen) == LET W == Where(bl, nen) IN Range(W[1]) \cup UNION {Range(W[k]) : k \in 1..Len(bl)} = 1..Total(bl, nen)
=============================================================================
