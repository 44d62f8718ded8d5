----------------------------- MODULE MCMatrix -----------------------------
(* Behaviours of the matrix specification: exhaustively for tiny arguments (Sim = FALSE), or by simulation with random arguments.
   g: the matrices as plain tables, following the accepted operations (what every storage format has to represent). *)
EXTENDS Matrix, Json
CONSTANTS Sim, Depth, Mode, Kinds    \* Mode: "all", "solve", "pattern" (few terms, mostly compressed)
VARIABLES n, h, g
vars == <<c, ms, n, h, g>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Cfg(nn, el, fx, thr, sl) == [nn |-> nn, elms |-> el, fixed |-> fx, thr |-> thr, slots |-> sl]
SimConfigs == {
  Cfg(3, <<<<1, 2>>, <<2, 3>>>>, <<>>, 1, 3), Cfg(3, <<<<1, 2>>, <<3, 2>>>>, <<2>>, 3, 3),
  Cfg(4, <<<<1, 2, 3>>, <<4, 3>>>>, <<1>>, 1, 4), Cfg(4, <<<<1, 2, 3>>, <<4, 2>>>>, <<>>, 2, 3),
  Cfg(4, <<<<4, 1>>, <<2, 4>>>>, <<>>, 2, 4), Cfg(4, <<<<1, 2>>, <<3, 4>>>>, <<4>>, 4, 3),
  Cfg(5, <<<<1, 3>>, <<3, 5>>, <<5, 4>>>>, <<3>>, 1, 3), Cfg(2, <<<<1>>>>, <<>>, 2, 3), Cfg(1, <<<<1>>>>, <<>>, 1, 3),
  Cfg(5, <<<<1, 2, 3>>, <<3, 4, 5>>>>, <<1, 5>>, 2, 4) }
Configs == IF Sim THEN (IF Mode = "pattern" THEN {x \in SimConfigs : x.nn \in {2, 3}} ELSE SimConfigs) ELSE {Cfg(2, <<<<1, 2>>>>, <<>>, 2, 2), Cfg(2, <<<<2>>>>, <<>>, 1, 2)}

\* matrix entries from one number
Rnd(z, k) == ((z * (k + 3) + 7 * k * k + (z \div (k + 1))) % 9) - 3
Seeds == IF Sim THEN 0..9999 ELSE {4}
Mat(z, m) == [k \in 1..(m * m) |-> Rnd(z, k)]
SymMat(z, m) == [k \in 1..(m * m) |-> LET i == (k - 1) \div m + 1  j == ((k - 1) % m) + 1
                                      IN  IF i = j THEN 3 * m + ((z + i) % 4) ELSE Rnd(z, Min2(i, j) * m + Max2(i, j))]
Dims == IF Sim THEN {Neq, Neq + 1, 2, 3, 4} \ {0} ELSE {2}
Perm(z, r, m) ==   \* m distinct numbers out of 1..r
  LET RECURSIVE P(_, _, _)
      P(S, w, k) == IF k = 0 THEN <<>> ELSE LET x == CHOOSE x \in S : Cardinality({y \in S : y < x}) = (w % Cardinality(S))
                                            IN <<x>> \o P(S \ {x}, w \div 3 + k, k - 1)
  IN  P(1..r, z, m)
Increasing(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y <= x}) = k]
Xs(z, m) == [k \in 1..m |-> ((z \div k + 5 * k) % 6) - 2]
Slots == 1..c.slots
Rhs(A, z, w) == IF ~Solvable(A) THEN [k \in 1..(A.r * w) |-> (z + 3 * k) % 7]
                ELSE LET RECURSIVE B(_)
                         B(k) == IF k = 0 THEN <<>> ELSE B(k - 1) \o MulVec(A, [j \in 1..A.k |-> ((z \div k + j * (2 * k + 1)) % 7) - 3])
                     IN  B(w)
Ops == {"new", "set", "raw", "sam", "init", "iam", "inz", "end", "pre", "cmp", "lck", "rsz", "rdm", "aug", "trc", "mul",
        "adm", "ads", "mvp", "sol", "cpy", "spl", "col", "csr", "dmp", "lod"}
Often == {"set", "raw", "sam", "mul", "adm", "ads"}
Args(op, s) ==
  LET A == ms[s] IN
  CASE op = "new" -> {<<k, r, IF k \in {"sym", "diag"} \/ r = q THEN r ELSE q>> : k \in Pick(Kinds), r \in Pick(Dims), q \in Pick(Dims)}
    [] op = "set" -> IF A.r = 0 THEN {} ELSE {<<i, IF A.kind = "diag" THEN i ELSE j, x>> : i \in Pick(1..A.r), j \in Pick(1..A.k), x \in Pick(0..4)}
    [] op = "raw" -> IF A.r = 0 THEN {} ELSE {<<IF A.kind = "sym" \/ y = 0 THEN SymMat(z, m) ELSE Mat(z, m), Perm(z, Min2(A.r, A.k), m)>>
                                               : z \in Pick(Seeds), y \in Pick(0..1), m \in Pick(1..Min2(IF Mode = "pattern" THEN 1 ELSE 3, Min2(A.r, A.k)))}
    [] op = "sam" -> {<<e, IF A.kind = "sym" \/ y = 0 THEN SymMat(z, Len(c.elms[e])) ELSE Mat(z, Len(c.elms[e]))>>
                      : z \in Pick(Seeds), y \in Pick(0..1), e \in Pick(1..Len(c.elms))}
    [] op = "iam" -> {<<f>> : f \in Pick({"F", "f", "d", "0"})}
    [] op = "pre" -> {<<<<q>>>> : q \in Pick({<<1, 2>>, <<2>>, <<1, 3>>, <<3, 1, 2>>})} \cup {<<<<<<1, 2>>, <<2, 1>>, <<1>>>>>>}
    [] op = "lck" -> {<<k>> : k \in Pick({0, 1})}
    [] op = "rsz" -> {<<r, k, f>> : r \in Pick(Dims), k \in Pick(Dims), f \in Pick({0, 1})}
    [] op = "rdm" -> {<<r, k>> : r \in Pick(Dims), k \in Pick(Dims)}
    [] op = "aug" -> {<<b, r, k>> : b \in Pick(Slots), r \in Pick(0..2), k \in Pick(0..2)}
    [] op = "trc" -> {<<p, q>> : p \in Pick({1, 3}), q \in Pick({2, 4})}
    [] op = "mul" -> {<<x>> : x \in Pick({2, 0, -1} \cup (IF Sim THEN {3} ELSE {}))}
    [] op = "adm" -> {<<b, x>> : b \in Pick(Slots), x \in Pick({1, -2})}
    [] op = "ads" -> {<<x, e>> : x \in Pick({1, -2, 5}), e \in Pick(0..(IF Sim THEN 4 ELSE 1))}
    [] op = "mvp" -> {<<Xs(z, A.k)>> : z \in Pick(Seeds)}
    [] op = "sol" -> IF ~Solver(A) \/ ~Decided(A) THEN {}
                     ELSE {<<m, w, Rhs(A, z, k)>> : m \in Pick(0..2), w \in Pick(0..1), z \in Pick(Seeds), k \in Pick(1..3)}
    [] op = "cpy" -> {<<b>> : b \in Pick(Slots)}
    [] op = "spl" -> IF A.r = 0 THEN {} ELSE {<<Increasing({x \in 1..A.r : ((z \div x) % 2) = 1})>> : z \in Pick(Seeds)}
    [] op = "col" -> {<<k>> : k \in Pick(0..(A.k + 1))}
    [] op = "dmp" -> {<<f>> : f \in Pick({0, 1})}
    [] op = "lod" -> {<<b, f>> : b \in Pick(Slots), f \in Pick({0, 1})}
    [] OTHER -> {<<>>}

(* ---- the plain tables ---- *)
TAdd(T, E) == [i \in 1..Len(T) |-> [j \in 1..Len(T[i]) |-> T[i][j] + SumOver({k \in 1..Len(E) : E[k][1] = i /\ E[k][2] = j}, [k \in 1..Len(E) |-> E[k][3]])]]
TZero(T) == [i \in 1..Len(T) |-> [j \in 1..Len(T[i]) |-> 0]]
Table(op, s, a, r) ==   \* what the operation means, whatever the storage format
  LET T == g[s]  A == ms[s] IN
  CASE op = "set" -> [T EXCEPT ![a[1]][a[2]] = a[3]]
    [] op = "raw" -> TAdd(T, Entries(A, a[1], a[2]))
    [] op = "sam" -> TAdd(T, Entries(A, a[2], EqsOf(a[1])))
    [] op = "init" -> TZero(T)
    [] op \in {"cmp", "lck", "inz", "mvp", "spl", "col", "csr", "dmp"} -> T
    [] op = "mul" -> [i \in 1..Len(T) |-> [j \in 1..Len(T[i]) |-> a[1] * T[i][j]]]
    [] op = "adm" -> IF r.ok /\ ~(IsZero(ms[a[1]]) /\ A.kind # "diag")
                     THEN [i \in 1..Len(T) |-> [j \in 1..Len(T[i]) |-> T[i][j] + (IF i <= ms[a[1]].r /\ j <= ms[a[1]].k THEN a[2] * g[a[1]][i][j] ELSE 0)]]
                     ELSE T
    [] op = "ads" -> IF a[2] > A.r THEN T ELSE TAdd(T, DiagEntries(A, a[1], a[2]))
    [] op = "trc" -> IF r.ok THEN Values(r.A) ELSE T
    [] OTHER -> Values(r.A)

Apply(op, s, a) ==
  LET r == TLCEval(Result(op, s, a)) IN
  /\ ms' = [ms EXCEPT ![s] = TLCEval(r.A)]
  /\ g' = [g EXCEPT ![s] = TLCEval(Table(op, s, a, r))]
  /\ h' = Append(h, <<op, s, a>>)
\* the operation on all the slots it is allowed for
RECURSIVE Slotwise(_, _, _, _, _)
All(op, a) == {s \in Slots : Contract(op, s, a)}
Slotwise(op, a, s, mm, hh) == IF s > c.slots THEN [m |-> mm, h |-> hh]
                              ELSE IF s \in All(op, a) THEN Slotwise(op, a, s + 1, [mm EXCEPT ![s] = TLCEval(Result(op, s, a).A)], Append(hh, <<op, s, a>>))
                              ELSE Slotwise(op, a, s + 1, mm, hh)
Local == {"set", "raw", "sam", "init", "iam", "inz", "end", "pre", "cmp", "lck", "mul", "ads", "mvp", "trc"}
Broad(op, a) ==
  LET q == TLCEval(Slotwise(op, a, 1, ms, h)) IN
  /\ ms' = q.m /\ h' = q.h
  /\ g' = [s \in Slots |-> IF s \in All(op, a) THEN TLCEval(Table(op, s, a, Result(op, s, a))) ELSE g[s]]
MCInit == /\ c \in Configs /\ n = 0
          /\ ms = [s \in 1..c.slots |-> None] /\ g = [s \in 1..c.slots |-> <<>>] /\ h = <<>>
Create == /\ n < c.slots
          /\ \E k \in Pick(IF Mode = "solve" THEN Kinds \ {"samg", "none"} ELSE Kinds), y \in Pick({0, 1, 2, 3}) : \E a \in (IF y > 0 \/ ~Sim THEN {<<k, Neq, Neq>>} ELSE Args("new", n + 1)) : Neq > 0 /\ Apply("new", n + 1, a)
          /\ n' = n + 1
\* few terms, such that compressed patterns often have the same column sizes
Sparsely == /\ n < c.slots
            /\ \E k \in Pick(Kinds), z \in Pick(Seeds), f \in Pick(1..Neq) :
                 LET P(w) == <<((z \div w) % Neq) + 1, ((z \div (w * 7)) % Neq) + 1>>
                     N0 == New(k, Neq, Neq)
                     N1 == Flag(AddTo(N0, <<<<f, f, 2>>>>), {f})
                     N2 == Put(N1, P(1)[1], P(1)[2], 3)
                     N3 == TLCEval(IF z % 3 = 0 THEN N2 ELSE Put(N2, P(3)[1], P(3)[2], 4))
                 IN  /\ ms' = [ms EXCEPT ![n + 1] = N3] /\ g' = [g EXCEPT ![n + 1] = Values(N3)]
                     /\ h' = h \o <<<<"new", n + 1, <<k, Neq, Neq>>>>, <<"raw", n + 1, <<<<2>>, <<f>>>>>>, <<"set", n + 1, P(1) \o <<3>>>>>>
                              \o (IF z % 3 = 0 THEN <<>> ELSE <<<<"set", n + 1, P(3) \o <<4>>>>>>)
            /\ n' = n + 1
SolveCycle == {"sol", "sol", "init", "raw", "sam", "iam", "ads", "mul", "cmp", "end", "inz", "cpy"}
Work == /\ n >= c.slots /\ n < Depth
        /\ n' = n + 1
        /\ \E o \in Pick(1..10) : \E op \in (IF ~Sim THEN Ops ELSE IF Mode = "pattern" THEN Pick(IF o = 1 THEN {"set"} ELSE IF o < 4 THEN {"cmp"} ELSE IF o < 8 THEN {"raw", "adm"} ELSE {"mul", "dmp", "mvp", "cpy", "new", "init", "lck"})
                                             ELSE IF Mode = "solve" /\ o > 4 THEN Pick({"sol"}) ELSE IF Mode = "solve" /\ o > 2 THEN Pick(SolveCycle)
                                             ELSE IF o < 4 THEN Pick(Often) ELSE Pick(Ops)), s \in Pick(Slots), y \in Pick(0..2) :
             LET S == TLCEval(Args(op, s)) IN
             IF S = {} THEN UNCHANGED <<ms, g, h>>
             ELSE \E a \in Pick(S) :
                    IF Sim /\ y > (IF Mode = "pattern" THEN 1 ELSE 0) /\ op \in (IF Mode = "pattern" THEN {"cmp"} ELSE Local) THEN Broad(op, a)
                    ELSE IF Contract(op, s, a) THEN Apply(op, s, a) ELSE UNCHANGED <<ms, g, h>>
Stop == n = Depth /\ n' = n + 1 /\ UNCHANGED <<ms, g, h>>
MCNext == ((IF Mode = "pattern" THEN Sparsely ELSE Create) \/ Work \/ Stop) /\ UNCHANGED c
MCSpec == MCInit /\ [][MCNext]_vars
Hidden == <<c, ms, n, g>>

(* ---- what holds for every storage format ---- *)
\* the stored coefficients represent the plain table
Represents == \A s \in 1..Len(ms) : ms[s].kind # "void" /\ Readable(ms[s]) => Values(ms[s]) = g[s]
\* equal tables: equal products and norms, whatever the formats
Alike == \A s, u \in 1..Len(ms) : (s < u /\ Readable(ms[s]) /\ Readable(ms[u]) /\ ms[s].kind # "void" /\ ms[u].kind # "void" /\ g[s] = g[u]) =>
           /\ Norm(ms[s]) = Norm(ms[u])
           /\ MulVec(ms[s], [j \in 1..ms[s].k |-> j]) = MulVec(ms[u], [j \in 1..ms[u].k |-> j])
\* after the end of the assembly, no equation is left without contributions
Ended == (h # <<>> /\ h[Len(h)][1] = "end") => LET A == ms[h[Len(h)][2]] IN Unflagged(A) = {}
Emit == n = Depth + 1 => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
