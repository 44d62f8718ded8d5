------------------------------ MODULE Matrix ------------------------------
(* System matrices on all storage formats.
   A matrix is its dimension, its pattern with the coefficients (v: <<row, column>> -> value), the storage state
     ed  "P" values and pattern may be edited,  "V" pattern temporarily locked,  "N" compressed (or a format without editing),
   the flags of the equations which have received contributions, and whether it has been factorised
     fac "no" | "yes" (the coefficients may have been overwritten) | "bad" (a failed factorisation).
   c: the element mesh the matrices are assembled from [nn, elms, fixed, thr]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c, ms

Range(q) == {q[k] : k \in 1..Len(q)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumOver(_, _)
SumOver(S, F) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F[x] + SumOver(S \ {x}, F)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
BIG == 1000000000           \* inserted on the diagonal of equations without contributions

Sparse(A) == A.kind \in {"slu", "umf", "samg", "none"}
ByCols(A) == A.kind \in {"slu", "umf"}
DenseK(A) == A.kind \in {"dense", "sym"}
Rect(r, k) == (1..r) \X (1..k)
Diagonal(r) == {<<i, i>> : i \in 1..r}
Zero(P) == [p \in P |-> 0]
Pattern(kind, r, k) == IF kind \in {"dense", "sym"} THEN Rect(r, k) ELSE IF kind = "diag" THEN Diagonal(r) ELSE {}
New(kind, r, k) == [kind |-> kind, r |-> r, k |-> k, ed |-> IF kind \in {"slu", "umf", "samg", "none"} THEN "P" ELSE "N",
                    v |-> Zero(Pattern(kind, r, k)), flg |-> <<FALSE>>, fac |-> "no"]
None == [kind |-> "void", r |-> 0, k |-> 0, ed |-> "N", v |-> Zero({}), flg |-> <<FALSE>>, fac |-> "no"]

Val(A, i, j) == IF <<i, j>> \in DOMAIN A.v THEN A.v[<<i, j>>] ELSE 0
Small(A) == \A p \in DOMAIN A.v : Abs(A.v[p]) < 1000000
\* the coefficients can still be read and changed
Readable(A) == ~(A.kind \in {"dense", "sym", "slu"}) \/ A.fac = "no"
Writable(A, P) == Readable(A) /\ P \subseteq Rect(A.r, A.k) /\ (P \subseteq DOMAIN A.v \/ (Sparse(A) /\ A.ed = "P"))

(* ---- accumulation ---- *)
AddTo(A, E) ==      \* E: sequence of <<i, j, x>>
  LET D == DOMAIN A.v \cup {<<E[k][1], E[k][2]>> : k \in 1..Len(E)}
      RECURSIVE At(_, _)
      At(p, k) == IF k = 0 THEN 0 ELSE At(p, k-1) + (IF E[k][1] = p[1] /\ E[k][2] = p[2] THEN E[k][3] ELSE 0)
  IN  [A EXCEPT !.v = TLCEval([p \in D |-> Val(A, p[1], p[2]) + At(p, Len(E))])]
Put(A, i, j, x) == [A EXCEPT !.v = TLCEval([p \in DOMAIN A.v \cup {<<i, j>>} |-> IF p = <<i, j>> THEN x ELSE Val(A, p[1], p[2])])]

Flag(A, S) == [A EXCEPT !.flg = IF Len(@) = 1 THEN <<TRUE>> ELSE TLCEval([k \in 1..Len(@) |-> @[k] \/ k \in S])]
FlagAll(A) == Flag(A, 1..Len(A.flg))
IsZero(A) == A.r > 0 /\ \A k \in 1..Len(A.flg) : ~A.flg[k]
FlagFits(A, S) == Len(A.flg) = 1 \/ S \subseteq 1..Len(A.flg)

\* element matrix x (by rows) onto the equations q; zero for unknowns without an equation
Entries(A, x, q) ==
  LET n == Len(q)
      ij == [z \in 1..(n * n) |-> <<q[(z - 1) \div n + 1], q[((z - 1) % n) + 1], x[z]>>]
      Sel(e) == e[1] > 0 /\ e[2] > 0 /\ (A.kind # "diag" \/ e[1] = e[2])
  IN  SelectSeq(ij, Sel)
EPat(E) == {<<E[k][1], E[k][2]>> : k \in 1..Len(E)}

(* ---- the mesh ---- *)
Eq(n) == IF n \in Range(c.fixed) THEN 0 ELSE Cardinality({k \in 1..n : k \notin Range(c.fixed)})
Neq == Cardinality(1..c.nn \ Range(c.fixed))
EqsOf(e) == [k \in 1..Len(c.elms[e]) |-> Eq(c.elms[e][k])]
Pos(S) == {x \in S : x > 0}
MeshPattern == UNION {{<<a, b>> : a \in Pos(Range(EqsOf(e))), b \in Pos(Range(EqsOf(e)))} : e \in 1..Len(c.elms)}

(* ---- storage ---- *)
Clear(A) == [A EXCEPT !.v = TLCEval(Zero(DOMAIN A.v)), !.fac = "no"]
Resize(A, r, k, force) ==
  IF r = A.r /\ k = A.k /\ ~force THEN Clear(A)
  ELSE [A EXCEPT !.r = r, !.k = k, !.ed = "P", !.v = Zero({}), !.fac = "no"]
Compress(A) == IF A.kind = "none" \/ ~Sparse(A) THEN A ELSE [A EXCEPT !.ed = "N"]
PreMesh(A, delay) ==
  IF A.ed # "P" THEN A
  ELSE IF delay \/ ~ByCols(A)
       THEN LET B == [A EXCEPT !.v = TLCEval(Zero(DOMAIN A.v \cup MeshPattern)), !.ed = "V"] IN IF delay THEN B ELSE Compress(B)
       ELSE [A EXCEPT !.v = TLCEval(Zero(MeshPattern)), !.ed = "N"]
InitAssembly(A, f) ==
  IF ~Sparse(A) THEN [A EXCEPT !.r = Neq, !.k = Neq, !.v = TLCEval(Zero(Pattern(A.kind, Neq, Neq))), !.fac = "no"]
  ELSE LET B == Resize(A, Neq, Neq, FALSE)
       IN  IF f = "F" THEN PreMesh(B, FALSE) ELSE IF f = "f" THEN PreMesh(B, TRUE)
           ELSE IF c.thr > 1 THEN PreMesh(B, f = "d") ELSE B
NodePattern(M) == UNION {{<<a, b>> : a \in Range(M[e]), b \in Range(M[e])} : e \in 1..Len(M)}
PreNodes(A, M) ==
  IF ~Sparse(A) \/ c.thr < 2 THEN A
  ELSE Compress([A EXCEPT !.v = TLCEval([p \in DOMAIN A.v \cup NodePattern(M) |-> IF p \in NodePattern(M) THEN 0 ELSE Val(A, p[1], p[2])])])
RedimSparse(A, r, k) == [A EXCEPT !.r = r, !.k = k, !.v = TLCEval([p \in DOMAIN A.v \cap Rect(r, k) |-> A.v[p]])]
RedimDense(A, r, k) == [A EXCEPT !.r = r, !.k = k, !.v = TLCEval([p \in Rect(r, k) |-> Val(A, p[1], p[2])])]
Augment(A, B, r0, c0) ==
  LET n == Max2(r0 + B.r, c0 + B.k)
      r == Max2(A.r, n)
      k == Max2(A.k, n)
      X == IF DenseK(A) THEN RedimDense(A, r, k) ELSE [A EXCEPT !.r = r, !.k = k]
      RECURSIVE L(_)
      L(P) == IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : TRUE
                                       IN  <<<<r0 + p[1], c0 + p[2], B.v[p]>>, <<c0 + p[2], r0 + p[1], B.v[p]>>>> \o L(P \ {p})
  IN  AddTo(X, L(DOMAIN B.v))
Truncate(A, p, q) ==
  LET tol == SetMax({0} \cup {Abs(A.v[x]) : x \in {x \in DOMAIN A.v : x[1] = x[2]}}) * p
      keep == {x \in DOMAIN A.v : Abs(A.v[x]) * q >= tol}
  IN  IF A.ed = "P" THEN [A EXCEPT !.v = TLCEval([x \in keep |-> A.v[x]])]
      ELSE [A EXCEPT !.v = TLCEval([x \in DOMAIN A.v |-> IF x \in keep THEN A.v[x] ELSE 0])]
Mult(A, alpha) == [A EXCEPT !.v = TLCEval([x \in DOMAIN A.v |-> alpha * A.v[x]])]
AddMat(A, B, alpha) == [A EXCEPT !.v = TLCEval([x \in DOMAIN A.v \cup DOMAIN B.v |-> Val(A, x[1], x[2]) + alpha * Val(B, x[1], x[2])])]
FlagsOf(A, B) == IF Len(A.flg) = 1 THEN <<TRUE>> ELSE [k \in 1..Len(A.flg) |-> A.flg[k] \/ (k <= Len(B.flg) /\ B.flg[k])]
WithFlags(A, B) == [A EXCEPT !.flg = FlagsOf(A, B)]
AddOf(A, B, alpha) ==
  LET yes == [ok |-> TRUE, A |-> WithFlags(AddMat(A, B, alpha), B)]
      no == [ok |-> FALSE, A |-> A]
  IN  IF A.kind = "diag" THEN IF B.kind # "diag" \/ A.r # B.r THEN no ELSE yes
      ELSE IF DenseK(A) # DenseK(B) \/ Sparse(A) # Sparse(B) THEN no
      ELSE IF IsZero(B) THEN [ok |-> TRUE, A |-> A]
      ELSE IF DenseK(A) THEN IF A.r # B.r \/ A.k < B.k THEN no ELSE yes
      ELSE IF B.r > A.r \/ B.k > A.k THEN no
      ELSE IF A.ed = "P" THEN yes
      ELSE IF A.ed = "N" /\ B.ed = "N" /\ ByCols(A) = ByCols(B) /\ DOMAIN A.v = DOMAIN B.v
              /\ (IF ByCols(A) THEN A.k = B.k ELSE A.r = B.r) THEN yes
      ELSE no
DiagEntries(A, sigma, ieq) == IF ieq > 0 THEN <<<<ieq, ieq, sigma>>>> ELSE [i \in 1..Min2(A.r, A.k) |-> <<i, i, sigma>>]
AddDiag(A, sigma, ieq) ==
  IF ieq > A.r THEN [ok |-> FALSE, A |-> A]
  ELSE LET B == AddTo(A, DiagEntries(A, sigma, ieq))
       IN  IF ieq > 0 /\ ~FlagFits(A, {ieq}) THEN [ok |-> FALSE, A |-> B]
           ELSE [ok |-> TRUE, A |-> IF ieq = 0 THEN FlagAll(B) ELSE Flag(B, {ieq})]
Unflagged(A) == IF Len(A.flg) > 1 /\ ~IsZero(A) THEN {k \in 1..Len(A.flg) : ~A.flg[k]} ELSE {}
EndAssembly(A) ==
  LET U == Unflagged(A)
      RECURSIVE L(_)
      L(S) == IF S = {} THEN <<>> ELSE LET k == SetMin(S) IN <<<<k, k, BIG>>>> \o L(S \ {k})
  IN  IF U = {} THEN A ELSE Flag(AddTo(A, L(U)), U)

(* ---- queries ---- *)
MulVec(A, x) == [i \in 1..A.r |-> SumSeq([j \in 1..A.k |-> Val(A, i, j) * x[j]])]
RowSum(A, i) == SumSeq([j \in 1..A.k |-> Abs(Val(A, i, j))])
Norm(A) == SetMax({RowSum(A, i) : i \in 1..A.r})
Values(A) == [i \in 1..A.r |-> [j \in 1..A.k |-> Val(A, i, j)]]
RowsIn(S, i) == {p \in S : p[1] < i}
CSR(A) == LET D == DOMAIN A.v
              Before(p) == Cardinality({q \in D : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])})
          IN  [ia |-> [i \in 1..(A.r + 1) |-> Cardinality(RowsIn(D, i))],
               ja |-> [n \in 1..Cardinality(D) |-> (CHOOSE p \in D : Before(p) = n - 1)[2] - 1]]
\* A11, A21, A12, A22
Split(A, q) ==
  LET S2 == Range(q)
      S1 == 1..A.r \ S2
      Kth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y <= x}) = n
      Sub(R, C) == [i \in 1..Cardinality(R) |-> [j \in 1..Cardinality(C) |-> Val(A, Kth(R, i), Kth(C, j))]]
  IN  <<Sub(S1, S1), Sub(S2, S1), Sub(S1, S2), Sub(S2, S2)>>

(* ---- equation solving ---- *)
RECURSIVE DetOf(_, _, _)
DetOf(A, R, C) ==    \* R: sequence of rows, C: set of columns
  IF R = <<>> THEN 1
  ELSE LET i == Head(R)
           RECURSIVE S(_, _)
           S(Cs, sg) == IF Cs = {} THEN 0
                        ELSE LET j == SetMin(Cs)
                             IN  (IF Val(A, i, j) = 0 THEN 0 ELSE sg * Val(A, i, j) * DetOf(A, Tail(R), C \ {j})) + S(Cs \ {j}, -sg)
       IN  S(C, 1)
Det(A, n) == DetOf(A, [i \in 1..n |-> i], 1..n)
Symmetric(A) == \A p \in Rect(A.r, A.k) : Val(A, p[1], p[2]) = Val(A, p[2], p[1])
\* a row or column without any non-zero: singular beyond any rounding
Void(A) == \/ \E i \in 1..A.r : \A j \in 1..A.k : Val(A, i, j) = 0
           \/ \E j \in 1..A.k : \A i \in 1..A.r : Val(A, i, j) = 0
Tame(A) == \A p \in DOMAIN A.v : Abs(A.v[p]) <= 50
Solver(A) == A.kind \in {"dense", "sym", "diag", "slu", "umf"}
Solvable(A) == IF A.kind = "diag" THEN \A i \in 1..A.r : Val(A, i, i) # 0
               ELSE IF A.kind = "sym" THEN \A n \in 1..A.r : Det(A, n) > 0
               ELSE Det(A, A.r) # 0
\* what the specification (and exact arithmetic) decides
Decided(A) ==
  /\ A.r = A.k /\ A.r > 0 /\ Tame(A)
  /\ (A.kind = "sym" => Symmetric(A))
  /\ ((Solvable(A) /\ A.fac # "bad") \/ (Void(A) /\ A.fac # "yes"))   \* a failed factorisation fails again
Solve(A, ok) == [A EXCEPT !.ed = IF ByCols(A) THEN "N" ELSE IF A.kind = "samg" THEN "N" ELSE @,
                          !.fac = IF ~ok THEN (IF A.kind \in {"dense", "sym", "slu"} THEN "bad" ELSE @)
                                  ELSE IF A.kind \in {"dense", "sym", "slu"} THEN "yes" ELSE @]
\* x answers for the right-hand sides b (several after each other)
Answers(A, x, b) ==
  /\ Len(x) = Len(b) /\ \A k \in 1..Len(x) : Abs(x[k]) < 2000001
  /\ \A k \in 0..(Len(b) \div A.r - 1) : \A i \in 1..A.r :
       SumSeq([j \in 1..A.r |-> IF x[k * A.r + j] = 0 THEN 0 ELSE Val(A, i, j) * x[k * A.r + j]]) = b[k * A.r + i]

(* ---- one operation on slot s with arguments a: is it within the contract, and its result [ok, A, out] ---- *)
R(ok, A, out) == [ok |-> ok, A |-> A, out |-> out]
Nil == <<>>
Contract(op, s, a) ==
  LET A == ms[s] IN
  CASE op = "new" -> a[2] > 0 /\ a[3] > 0 /\ (a[1] \in {"sym", "diag"} => a[2] = a[3])
    [] op = "set" -> Writable(A, {<<a[1], a[2]>>})
    [] op = "raw" -> LET E == Entries(A, a[1], a[2])
                     IN  Writable(A, EPat(E)) /\ Small(A) /\ FlagFits(A, Range(a[2])) /\ (A.kind = "diag" => Cardinality(Range(a[2])) = Len(a[2]))
    [] op = "sam" -> LET E == Entries(A, a[2], EqsOf(a[1])) IN A.r = Neq /\ A.k = Neq /\ Writable(A, EPat(E)) /\ Small(A) /\ FlagFits(A, Pos(Range(EqsOf(a[1]))))
    [] op \in {"init", "iam", "inz", "lck"} -> A.kind # "void"
    [] op = "end" -> Readable(A) /\ (Unflagged(A) # {} => Writable(A, {<<k, k>> : k \in Unflagged(A)}) /\ Small(A))
    [] op = "pre" -> Sparse(A) /\ A.ed = "P" /\ NodePattern(a[1]) \subseteq Rect(A.r, A.k)
    [] op = "cmp" -> A.kind # "void"
    [] op = "rsz" -> Sparse(A)
    [] op = "rdm" -> (Sparse(A) \/ A.kind = "dense") /\ Readable(A)
    [] op = "aug" -> LET B == ms[a[1]] IN a[1] # s /\ Readable(A) /\ Readable(B) /\ Small(A) /\ Small(B) /\ A.kind # "void" /\ B.kind # "void"
                                        /\ (DenseK(A) /\ Sparse(B) => DOMAIN B.v # {} \/ B.ed = "N")
    [] op = "trc" -> A.kind # "void" /\ Readable(A) /\ Small(A)
    [] op = "mul" -> A.kind # "void" /\ Readable(A) /\ Small(A)
    [] op = "adm" -> LET B == ms[a[1]] IN Readable(A) /\ Readable(B) /\ Small(A) /\ Small(B) /\ A.kind # "void" /\ B.kind # "void"
    [] op = "ads" -> A.kind # "void" /\ (a[2] > A.r \/ (Writable(A, {<<e[1], e[2]>> : e \in Range(DiagEntries(A, a[1], a[2]))}) /\ Small(A)))
    [] op = "mvp" -> A.kind # "void" /\ Readable(A) /\ Small(A) /\ Len(a[1]) = A.k
    [] op = "sol" -> Solver(A) /\ Decided(A) /\ Len(a[3]) % A.r = 0 /\ Len(a[3]) > 0
    [] op = "cpy" -> LET B == ms[a[1]] IN a[1] # s /\ Readable(B) /\ B.kind # "void"
    [] op = "spl" -> Sparse(A) /\ A.ed # "N" /\ DOMAIN A.v # {}
    [] op = "col" -> Sparse(A) /\ A.ed # "N" /\ DOMAIN A.v # {}
    [] op = "csr" -> Sparse(A) /\ A.ed # "N"
    [] op = "dmp" -> A.kind # "void" /\ Readable(A) /\ Small(A) /\ (Sparse(A) /\ A.ed = "N" => DOMAIN A.v # {})
    [] op = "lod" -> LET B == ms[a[1]] IN a[1] # s /\ DenseK(A) /\ A.kind = B.kind /\ B.fac # "bad" /\ Small(B)
    [] OTHER -> FALSE

Result(op, s, a) ==
  LET A == ms[s] IN
  CASE op = "new" -> R(TRUE, New(a[1], a[2], a[3]), Nil)
    [] op = "set" -> R(TRUE, Put(A, a[1], a[2], a[3]), Nil)
    [] op = "raw" -> R(TRUE, Flag(AddTo(A, Entries(A, a[1], a[2])), Range(a[2])), Nil)
    [] op = "sam" -> R(TRUE, Flag(AddTo(A, Entries(A, a[2], EqsOf(a[1]))), Pos(Range(EqsOf(a[1])))), Nil)
    [] op = "init" -> R(TRUE, Clear(A), Nil)
    [] op = "iam" -> R(TRUE, InitAssembly(A, a[1]), Nil)
    [] op = "inz" -> R(TRUE, [A EXCEPT !.flg = [k \in 1..A.r |-> FALSE]], Nil)
    [] op = "end" -> R(TRUE, EndAssembly(A), Nil)
    [] op = "pre" -> R(TRUE, PreNodes(A, a[1]), Nil)
    [] op = "cmp" -> R(TRUE, Compress(A), Nil)
    [] op = "lck" -> R(Sparse(A) /\ A.ed # "P", IF Sparse(A) /\ A.ed # "N" THEN [A EXCEPT !.ed = IF a[1] = 1 THEN "V" ELSE "P"] ELSE A, Nil)
    [] op = "rsz" -> R(TRUE, Resize(A, a[1], a[2], a[3] = 1), Nil)
    [] op = "rdm" -> IF Sparse(A) THEN (IF A.ed = "P" THEN R(TRUE, RedimSparse(A, a[1], a[2]), Nil) ELSE R(FALSE, A, Nil))
                     ELSE R(a[1] # A.r \/ a[2] # A.k, RedimDense(A, a[1], a[2]), Nil)
    [] op = "aug" -> LET B == ms[a[1]] IN
                     IF (DenseK(A) /\ (DenseK(B) \/ (Sparse(B) /\ B.ed # "N"))) \/ (Sparse(A) /\ A.ed = "P" /\ Sparse(B) /\ B.ed # "N")
                     THEN R(TRUE, Augment(A, B, a[2], a[3]), Nil) ELSE R(FALSE, A, Nil)
    [] op = "trc" -> IF Sparse(A) /\ A.ed # "N" THEN R(TRUE, Truncate(A, a[1], a[2]), Nil) ELSE R(FALSE, A, Nil)
    [] op = "mul" -> R(TRUE, Mult(A, a[1]), Nil)
    [] op = "adm" -> LET r == AddOf(A, ms[a[1]], a[2]) IN R(r.ok, r.A, Nil)
    [] op = "ads" -> LET r == AddDiag(A, a[1], a[2]) IN R(r.ok, r.A, Nil)
    [] op = "mvp" -> R(TRUE, A, MulVec(A, a[1]))
    [] op = "cpy" -> R(TRUE, ms[a[1]], Nil)
    [] op = "spl" -> IF A.r # A.k \/ a[1] = <<>> \/ Len(a[1]) >= A.r THEN R(FALSE, A, Nil) ELSE R(TRUE, A, Split(A, a[1]))
    [] op = "col" -> IF a[1] < 1 \/ a[1] > A.k THEN R(FALSE, A, [i \in 1..A.r |-> 0]) ELSE R(TRUE, A, [i \in 1..A.r |-> Val(A, i, a[1])])
    [] op = "csr" -> R(TRUE, A, CSR(A))
    [] op = "dmp" -> R(TRUE, A, Values(A))
    [] op = "lod" -> IF A.r # ms[a[1]].r \/ A.k # ms[a[1]].k THEN R(FALSE, A, Nil)
                     ELSE R(TRUE, FlagAll([ms[a[1]] EXCEPT !.flg = A.flg, !.kind = A.kind]), Nil)
    [] op = "sol" -> R(Solvable(A), Solve(A, Solvable(A)), Nil)

TypeOK == \A s \in 1..Len(ms) : /\ ms[s].ed \in {"P", "V", "N"} /\ ms[s].fac \in {"no", "yes", "bad"}
                                /\ DOMAIN ms[s].v \subseteq Rect(ms[s].r, ms[s].k)
                                /\ (DenseK(ms[s]) => DOMAIN ms[s].v = Rect(ms[s].r, ms[s].k))
=============================================================================
