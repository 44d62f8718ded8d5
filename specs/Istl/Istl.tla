-------------------------------- MODULE Istl --------------------------------
(* Equation systems on the ISTL format: the coefficients are assembled in one storage, and transferred to the one
   which is solved by an iterative method with a preconditioner that may be kept for several solutions.
   c: [type, pc, reset, maxits, slots, mesh: << [nn, elms, fixed] >>].
   A slot: mesh (0: not dimensioned), A: what has been assembled, cur: what is solved for, flg: equations with contributions,
   n: number of solutions (-1: not known), pre: [st |-> "none" | "set" | "unknown", of |-> the coefficients it was made for]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c, ms
Range(q) == {q[k] : k \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
BIG == 1000000000
Eq(g, n) == IF n \in Range(c.mesh[g].fixed) THEN 0 ELSE Cardinality({k \in 1..n : k \notin Range(c.mesh[g].fixed)})
Neq(g) == Cardinality(1..c.mesh[g].nn \ Range(c.mesh[g].fixed))
Eqs(g, e) == [k \in 1..Len(c.mesh[g].elms[e]) |-> Eq(g, c.mesh[g].elms[e][k])]
Zero(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> 0]])
NoPre == [st |-> "none", of |-> <<>>]
Unknown == [st |-> "unknown", of |-> <<>>]
New == [mesh |-> 0, A |-> <<>>, cur |-> <<>>, flg |-> <<TRUE>>, n |-> 0, pre |-> NoPre]
Void == [New EXCEPT !.mesh = -1]

InitAssembly(a, g) == [a EXCEPT !.mesh = g, !.A = Zero(Neq(g)), !.cur = Zero(Neq(g)), !.pre = NoPre]
Init0(a) == [a EXCEPT !.A = Zero(Neq(a.mesh)), !.cur = Zero(Neq(a.mesh))]
Inz(a) == [a EXCEPT !.flg = [k \in 1..Neq(a.mesh) |-> FALSE]]
Add(a, e, x) ==
  LET q == Eqs(a.mesh, e)   n == Len(q)   N == Neq(a.mesh)
      At(i, j) == Sum([z \in 1..(n * n) |-> IF q[(z - 1) \div n + 1] = i /\ q[((z - 1) % n) + 1] = j THEN x[z] ELSE 0])
  IN  [a EXCEPT !.A = TLCEval([i \in 1..N |-> [j \in 1..N |-> @[i][j] + At(i, j)]]),
                !.flg = IF Len(@) = 1 THEN <<TRUE>> ELSE TLCEval([k \in 1..Len(@) |-> @[k] \/ k \in Range(q)])]
\* equations without contributions get a large coefficient
Unflagged(a) == IF Len(a.flg) = 1 \/ \A k \in 1..Len(a.flg) : ~a.flg[k] THEN {} ELSE {k \in 1..Len(a.flg) : ~a.flg[k]}
End(a) == LET U == Unflagged(a)   N == Neq(a.mesh)
              B == TLCEval([i \in 1..N |-> [j \in 1..N |-> IF i = j /\ i \in U THEN a.A[i][j] + BIG ELSE a.A[i][j]]])
          IN  [a EXCEPT !.A = B, !.cur = B, !.flg = IF U = {} THEN @ ELSE TLCEval([k \in 1..Len(@) |-> TRUE])]
Norm(M) == SetMax({Sum([j \in 1..Len(M) |-> Abs(M[i][j])]) : i \in 1..Len(M)})

\* before a solution, the preconditioner may be due for a renewal
Due(a) == a.n > 0 /\ (c.reset = "all" \/ (c.reset = "first" /\ a.n = 1) \/ (c.reset = "2" /\ a.n % 2 = 0) \/ (c.reset = "3" /\ a.n % 3 = 0))
Prepared(a) == IF Due(a) \/ a.pre.st = "none" THEN [a EXCEPT !.pre = [st |-> "set", of |-> a.cur]] ELSE a
Dominant(M) == \A i \in 1..Len(M) : Abs(M[i][i]) > Sum([j \in 1..Len(M) |-> IF j = i THEN 0 ELSE Abs(M[i][j])])
EmptyRow(M) == \E i \in 1..Len(M) : \A j \in 1..Len(M) : M[i][j] = 0
\* p: the prepared state.  When the method must succeed, and when it can not.
\* (GMRES may break down when the preconditioner is too good.)
Must(p) == Dominant(p.cur) /\ (c.type = "cg" => \A k \in 1..Len(p.cur) : p.cur[k][k] > 0) /\ ((c.type \in {"bcgs", "cg"} /\ c.pc = "lu" /\ p.pre.st = "set" /\ p.pre.of = p.cur) \/
                               (c.type = "cg" /\ c.maxits >= 100 /\ c.pc \in {"jacobi", "ssor"} /\ \A k \in 1..Len(p.cur) : p.cur[k][k] <= 1000))
\* x: the solution in thousandths
Answers(M, x, b) ==
  /\ Len(x) = Len(b)
  /\ \/ ~Dominant(M) /\ \E i \in 1..Len(M) : Abs(x[i]) > 100000
     \/ /\ \A i \in 1..Len(M) : Abs(x[i]) <= 100000 /\ (Abs(M[i][i]) > 1000 => x[i] = 0)
        /\ \A i \in 1..Len(M) : Abs(M[i][i]) <= 1000 =>
             Abs(Sum([j \in 1..Len(M) |-> M[i][j] * x[j]]) - 1000 * b[i]) <= Sum([j \in 1..Len(M) |-> Abs(M[i][j])])
Solved(p, ok) == IF ok THEN [p EXCEPT !.n = IF @ < 0 THEN @ ELSE @ + 1] ELSE [p EXCEPT !.n = -1, !.pre = Unknown]
TypeOK == \A s \in 1..Len(ms) : ms[s].mesh > 0 => Len(ms[s].A) = Neq(ms[s].mesh) /\ Len(ms[s].cur) = Neq(ms[s].mesh)
=============================================================================
