------------------------------ MODULE Threads ------------------------------
(* The element groups for multi-threaded assembly, and the concurrent assembly itself.

   A mesh is structured:   kind "s": n (elements in each direction), real (which knot spans are non-empty, per direction),
                           p (the overlap: two elements share nodes when they are at most p[d] apart in all directions d),
           or unstructured: kind "u": elms (sequence of node sequences), cpl (sequence of <<slave node, master node>>).
   Elements are numbered from 0, as the groups do.  A grouping is a sequence of phases; the phases are processed one after
   the other;  a phase is a sequence of strips;  the strips of a phase are processed concurrently, each one sequentially. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mesh, tg

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
NoElm(m) == IF m.kind = "s" THEN Prod(m.n) ELSE Len(m.elms)
Elements(m) == 0..(NoElm(m) - 1)
\* position of a structured element in direction d
RECURSIVE Pos(_, _, _)
Pos(m, e, d) == IF d = 1 THEN e % m.n[1] ELSE Pos([m EXCEPT !.n = Tail(m.n)], e \div m.n[1], d - 1)
Real(m, e) == m.kind = "u" \/ \A d \in 1..Len(m.n) : m.real[d][Pos(m, e, d) + 1]
\* the nodes an element adds contributions to; those of a structured mesh are numbered along the directions
Grid(m, e) == LET i == Pos(m, e, 1) * 1  s1 == m.n[1] + m.p[1] IN
  IF Len(m.n) = 1 THEN {i + a : a \in 0..m.p[1]}
  ELSE LET j == Pos(m, e, 2)  s2 == s1 * (m.n[2] + m.p[2]) IN
  IF Len(m.n) = 2 THEN {(i + a) + (j + b) * s1 : a \in 0..m.p[1], b \in 0..m.p[2]}
  ELSE LET k == Pos(m, e, 3) IN {(i + a) + ((j + b) * s1) + ((k + x) * s2) : a \in 0..m.p[1], b \in 0..m.p[2], x \in 0..m.p[3]}
Touched(m, e) ==
  IF m.kind = "s" THEN IF Real(m, e) THEN Grid(m, e) ELSE {}
  ELSE LET N == {m.elms[e + 1][k] : k \in 1..Len(m.elms[e + 1])}
       IN  N \cup {m.cpl[k][2] : k \in {k \in 1..Len(m.cpl) : m.cpl[k][1] \in N}}

RngOf(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Listed(g) == Flat([k \in 1..Len(g) |-> Flat(g[k])])

NoDuplicates(g) == LET l == TLCEval(Listed(g)) IN Cardinality(RngOf(l)) = Len(l)
\* exactly the elements of S are listed, once; those without extension in the domain may be left out
Covers(m, g, S) == /\ NoDuplicates(g)
                   /\ RngOf(Listed(g)) \subseteq S
                   /\ \A e \in S : Real(m, e) => e \in RngOf(Listed(g))
\* concurrent strips have no node in common
Disjoint(m, g) ==
  \A ph \in 1..Len(g) :
    LET N == TLCEval([t \in 1..Len(g[ph]) |-> UNION {Touched(m, e) : e \in RngOf(g[ph][t])}])
    IN  \A t, u \in 1..Len(g[ph]) : t < u => N[t] \cap N[u] = {}
Valid(m, g, S) == Covers(m, g, S) /\ Disjoint(m, g)
Width(g) == IF g = <<>> THEN 0 ELSE LET W == {Len(g[ph]) : ph \in 1..Len(g)} IN CHOOSE w \in W : \A v \in W : v <= w

(* ---- the operations ---- *)
One(m) == <<<<[k \in 1..NoElm(m) |-> k - 1]>>>>
\* an explicit element list: all elements if empty, none if it starts with a negative number
Chosen(m, l) == IF l = <<>> THEN Elements(m) ELSE IF l[1] < 0 THEN {} ELSE RngOf(l)
Filter(g, l) == [ph \in 1..Len(g) |-> [t \in 1..Len(g[ph]) |-> SelectSeq(g[ph][t], LAMBDA e : e \in RngOf(l))]]
Map(g, f) == [ph \in 1..Len(g) |-> [t \in 1..Len(g[ph]) |-> [k \in 1..Len(g[ph][t]) |-> f[g[ph][t][k] + 1]]]]
Renumbered(m, f) == \* the mesh after the renumbering e -> f[e+1] of its elements
  LET inv == [x \in Elements(m) |-> CHOOSE e \in Elements(m) : f[e + 1] = x]
  IN  [kind |-> "u", cpl |-> <<>>, elms |-> [k \in 1..NoElm(m) |-> LET T == Touched(m, inv[k - 1]) IN
                                             [j \in 1..Cardinality(T) |-> CHOOSE x \in T : Cardinality({y \in T : y <= x}) = j]]]
=============================================================================
