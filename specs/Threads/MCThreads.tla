----------------------------- MODULE MCThreads -----------------------------
(* The design: a reference partitioning in strips, and greedy colouring, give valid groups for every mesh;
   and with valid groups every interleaving of the concurrent assembly adds up to the sequential result. *)
EXTENDS Threads, Json
CONSTANTS Sizes, Orders, Threads, Mode
VARIABLES ph, at, todo, got, acc
vars == <<mesh, tg, ph, at, todo, got, acc>>

(* strips along direction d; 2T strips alternate between the phases; fewer threads when the strips get too narrow *)
RECURSIVE Usable(_, _, _)
Usable(els, T, w) == IF T <= 1 \/ els \div (2 * T) >= w THEN T ELSE Usable(els, T - 1, w)
Strips(m, d, T0) ==
  LET P == {i \in 1..m.n[d] : m.real[d][i]}
      els == Cardinality(P)
      T == Usable(els, T0, m.p[d])
      wd == els \div (2 * T)
      rank(i) == Cardinality({x \in P : x < i})             \* number of non-empty spans before
      strip(i) == LET q == rank(i) \div wd IN IF q >= 2 * T THEN 2 * T - 1 ELSE q
      elem(s) == SelectSeq([k \in 1..NoElm(m) |-> k - 1], LAMBDA e : strip(Pos(m, e, d) + 1) = s)
  IN  IF T <= 1 THEN One(m) ELSE [g \in 1..2 |-> [t \in 1..T |-> elem(2 * (t - 1) + g - 1)]]
RECURSIVE Colour(_, _, _)
Colour(m, left, g) ==
  IF left = {} THEN <<g>> ELSE
  LET RECURSIVE Take(_, _, _)
      Take(L, N, l) == IF L = {} THEN l ELSE
        LET e == CHOOSE e \in L : \A x \in L : e <= x IN
        IF Touched(m, e) \cap N = {} THEN Take(L \ {e}, N \cup Touched(m, e), Append(l, <<e>>)) ELSE Take(L \ {e}, N, l)
      col == Take(left, {}, <<>>)
  IN  Colour(m, left \ UNION {RngOf(col[k]) : k \in 1..Len(col)}, Append(g, col))

Reals(n) == {[k \in 1..n |-> TRUE]} \cup {[k \in 1..n |-> k # z] : z \in 2..(n - 1)}
Structured == UNION {{[kind |-> "s", n |-> <<a, b>>, real |-> <<r, q>>, p |-> <<o, o2>>] : r \in Reals(a), q \in {[k \in 1..b |-> TRUE]}}
                     : a \in Sizes, b \in {1, 2}, o \in Orders, o2 \in Orders}
Lists == {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<1>>, <<4>>}
Unstructured == {[kind |-> "u", elms |-> e, cpl |-> q] : e \in [1..3 -> Lists], q \in {<<>>, <<<<2, 4>>>>, <<<<2, 4>>, <<2, 1>>>>, <<<<1, 3>>, <<4, 3>>>>}}
Grouping(m) == IF m.kind = "s" THEN {Strips(m, 1, T) : T \in Threads} ELSE {Colour(m, Elements(m), <<>>)[1]}
Nodes == UNION {Touched(mesh, e) : e \in Elements(mesh)}

MCInit == /\ mesh \in (IF Mode = "s" THEN Structured ELSE Unstructured)
          /\ tg \in Grouping(mesh)
          /\ ph = 1 /\ acc = [x \in Nodes |-> 0]
          /\ at = [t \in 1..Len(tg[1]) |-> 1] /\ todo = [t \in 1..Len(tg[1]) |-> {}] /\ got = [t \in 1..Len(tg[1]) |-> <<>>]
Running(t) == at[t] <= Len(tg[ph][t])
Start(t) == LET T == Touched(mesh, tg[ph][t][at[t]]) IN   \* next element of the strip
            /\ Running(t) /\ todo[t] = {} /\ got[t] = <<>>
            /\ IF T = {} THEN at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED todo
                         ELSE todo' = [todo EXCEPT ![t] = T] /\ UNCHANGED at
            /\ UNCHANGED <<got, acc, ph>>
Load(t) == /\ todo[t] # {} /\ got[t] = <<>>              \* the addition is not atomic
           /\ LET x == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y IN got' = [got EXCEPT ![t] = <<x, acc[x]>>]
           /\ UNCHANGED <<at, todo, acc, ph>>
Store(t) == LET x == got[t][1] IN
            /\ got[t] # <<>>
            /\ acc' = [acc EXCEPT ![x] = got[t][2] + tg[ph][t][at[t]] + 1]
            /\ todo' = [todo EXCEPT ![t] = @ \ {x}] /\ got' = [got EXCEPT ![t] = <<>>]
            /\ at' = IF todo[t] = {x} THEN [at EXCEPT ![t] = @ + 1] ELSE at
            /\ UNCHANGED ph
Barrier == /\ ph < Len(tg) /\ \A t \in 1..Len(tg[ph]) : ~Running(t)
           /\ ph' = ph + 1
           /\ at' = [t \in 1..Len(tg[ph + 1]) |-> 1] /\ todo' = [t \in 1..Len(tg[ph + 1]) |-> {}] /\ got' = [t \in 1..Len(tg[ph + 1]) |-> <<>>]
           /\ UNCHANGED acc
MCNext == /\ (Barrier \/ \E t \in 1..Len(tg[ph]) : Start(t) \/ Load(t) \/ Store(t))
          /\ UNCHANGED <<mesh, tg>>
MCSpec == MCInit /\ [][MCNext]_vars

GroupsValid == Valid(mesh, tg, Elements(mesh))
RECURSIVE SumE(_)
SumE(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN e + 1 + SumE(S \ {e})
Sequential == [x \in Nodes |-> SumE({e \in Elements(mesh) : x \in Touched(mesh, e)})]
Finished == ph = Len(tg) /\ \A t \in 1..Len(tg[ph]) : ~Running(t)
SameResult == Finished => acc = Sequential
NoLostUpdate == \A t \in DOMAIN got : got[t] # <<>> => acc[got[t][1]] = got[t][2]
\* what the restriction to an element list keeps
FilterValid == \A l \in {<<0>>, <<1, 0>>} : ph = 1 => Valid(mesh, Filter(tg, l), RngOf(l) \cap Elements(mesh))
=============================================================================
