----------------------------- MODULE Topology -----------------------------
(* Merging and renumbering of the nodes of a multi-patch model.
   A node is a place <<p, j>> (patch, local index).  Global numbers identify places which are the same mesh node;
   cls is the ground truth: which places have been declared to be the same node, by whatever history. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c, m

Pats == 1..Len(c.pat)
Own == {p \in Pats : c.pat[p].share = 0}      \* the patches with a mesh of their own (others refer to that of another one)
Src(p) == IF p \in Own THEN p ELSE c.pat[p].share
Range(q) == {q[j] : j \in 1..Len(q)}
Places == UNION {{<<p, j>> : j \in 1..Len(c.pat[p].nodes)} : p \in Own}
Num(mm, x) == mm.num[x[1]][x[2]]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Empty == [x \in {} |-> 0]
Init(cc) ==
  /\ c = cc
  /\ m = [num |-> [p \in 1..Len(cc.pat) |-> IF cc.pat[p].share = 0 THEN cc.pat[p].nodes ELSE <<>>],
          cls |-> LET P == UNION {{<<p, j>> : j \in 1..Len(cc.pat[p].nodes)} : p \in {p \in 1..Len(cc.pat) : cc.pat[p].share = 0}}
                  IN  [x \in P |-> {y \in P : cc.pat[y[1]].nodes[y[2]] = cc.pat[x[1]].nodes[x[2]]}],
          bc |-> [p \in 1..Len(cc.pat) |-> {}], eqs |-> [p \in 1..Len(cc.pat) |-> {}],
          elm |-> [p \in 1..Len(cc.pat) |-> cc.pat[p].elms], dead |-> [p \in 1..Len(cc.pat) |-> {}],
          g2l |-> Empty, state |-> "build"]

(* all occurrences of a number become another one, also in boundary codes and constraints *)
Sub(x, a, b) == IF x = a THEN b ELSE x
SubSeqN(q, a, b) == [j \in 1..Len(q) |-> Sub(q[j], a, b)]
Map(mm, f(_)) ==
  [mm EXCEPT !.num = TLCEval([p \in Pats |-> [j \in 1..Len(mm.num[p]) |-> f(mm.num[p][j])]]),
             !.bc = TLCEval([p \in Pats |-> {<<f(k[1]), k[2]>> : k \in mm.bc[p]}]),
             !.eqs = TLCEval([p \in Pats |-> {[s |-> <<f(e.s[1]), e.s[2]>>, m |-> TLCEval([k \in 1..Len(e.m) |-> <<f(e.m[k][1]), e.m[k][2], e.m[k][3]>>]), code |-> e.code] : e \in mm.eqs[p]}])]
Join(mm, x, y) == LET u == TLCEval(mm.cls[x] \cup mm.cls[y]) IN [mm EXCEPT !.cls = TLCEval([z \in Places |-> IF z \in u THEN u ELSE mm.cls[z]])]

\* the two places become the same node, which gets the given number
MergeTo(mm, x, n) == IF Num(mm, x) = n THEN mm ELSE LET o == Num(mm, x) IN Map(mm, LAMBDA k : Sub(k, o, n))
Collapse(mm, x, y) ==
  LET a == Num(mm, x) b == Num(mm, y)
  IN  IF a = b THEN [ok |-> FALSE, m |-> mm]
      ELSE [ok |-> TRUE, m |-> Join(MergeTo(mm, IF a > b THEN x ELSE y, Min2(a, b)), x, y)]

(* boundary codes and (two-point) constraints on the places *)
Digits(d) == {x \in 1..9 : \E k \in {1, 10, 100, 1000} : (d \div k) % 10 = x}
Fix(mm, p, j, d) == [mm EXCEPT !.bc[p] = @ \cup {<<mm.num[Src(p)][j], x>> : x \in {x \in Digits(d) : x <= c.pat[p].nf}}]
FindEq(mm, p, k) == {e \in mm.eqs[p] : e.s = k}
\* coupling one unknown of two nodes: ignored on a fixed slave or between identical nodes;  refused if the slave has one already
Couple(mm, p, s, d, r) ==
  LET k == <<mm.num[Src(p)][s], d>> l == <<mm.num[Src(p)][r], d>>
  IN  IF d > c.pat[p].nf \/ k = l \/ k \in mm.bc[p] THEN [ok |-> TRUE, m |-> mm]
      ELSE IF FindEq(mm, p, k) # {} THEN [ok |-> FALSE, m |-> mm]
      ELSE [ok |-> TRUE, m |-> [mm EXCEPT !.eqs[p] = @ \cup {[s |-> k, m |-> <<l \o <<1>>>>, code |-> 0]}]]
\* a constraint with several weighted masters <<local node, direction, weight>>:  refused if the unknown has one already
Constrain(mm, p, s, d, ms) ==
  LET k == <<mm.num[Src(p)][s], d>>
  IN  IF k \in mm.bc[p] THEN [ok |-> TRUE, m |-> mm]
      ELSE IF FindEq(mm, p, k) # {} THEN [ok |-> FALSE, m |-> mm]
      ELSE [ok |-> TRUE, m |-> [mm EXCEPT !.eqs[p] = @ \cup {[s |-> k, m |-> TLCEval([j \in 1..Len(ms) |-> <<mm.num[Src(p)][ms[j][1]], ms[j][2], ms[j][3]>>]), code |-> 0]}]]
\* prescribing unknowns of a node by function number code: ignored where fixed or already constrained
Prescribe(mm, p, j, dirs, code) ==
  LET n == mm.num[Src(p)][j]
      new == {d \in Digits(dirs) : d <= c.pat[p].nf /\ <<n, d>> \notin mm.bc[p] /\ FindEq(mm, p, <<n, d>>) = {}}
  IN  [mm EXCEPT !.eqs[p] = @ \cup {[s |-> <<n, d>>, m |-> <<>>, code |-> code] : d \in new}]
\* either of the two may become the dependent one
Periodic1(mm, p, a, b, d) ==
  LET q == Couple(mm, p, a, d, b)
  IN  IF q.ok THEN q.m ELSE LET r == Couple(mm, p, b, d, a) IN r.m
RECURSIVE PeriodicDofs(_, _, _, _, _)
PeriodicDofs(mm, p, a, b, D) ==
  IF D = {} THEN mm ELSE LET d == SetMin(D) IN PeriodicDofs(Periodic1(mm, p, a, b, d), p, a, b, D \ {d})
Periodic(mm, p, a, b, dirs) ==
  LET D == Digits(dirs)
  IN  IF D = 1..c.pat[p].nf THEN Collapse(mm, <<p, a>>, <<p, b>>).m ELSE PeriodicDofs(mm, p, a, b, D)

(* places with the same coordinates are the same node; the first one found gives the number *)
RECURSIVE FixDup(_, _, _)
FixDup(mm, seen, todo) ==
  IF todo = <<>> THEN mm
  ELSE LET x == Head(todo)
           X(z) == c.pat[z[1]].x[z[2]]
           S == {y \in seen : X(y) = X(x)}
       IN  IF S = {} THEN FixDup(mm, seen \cup {x}, Tail(todo))
           ELSE LET y == CHOOSE z \in S : TRUE IN FixDup(Join(MergeTo(mm, x, Num(mm, y)), x, y), seen, Tail(todo))
RECURSIVE AllPlaces(_)
AllPlaces(p) == IF p > Len(c.pat) THEN <<>>
                ELSE (IF p \in Own THEN [j \in 1..Len(c.pat[p].nodes) |-> <<p, j>>] ELSE <<>>) \o AllPlaces(p + 1)

Used(mm) == {Num(mm, x) : x \in Places}
Rank(S, n) == Cardinality({k \in S : k <= n})
\* consecutive numbers 1..n, either in the order of the old ones, or in the order in which the patches refer to them
Consecutive(mm, keepOrder) ==
  IF keepOrder THEN LET U == Used(mm) IN [n \in U |-> Rank(U, n)]
  ELSE LET order == AllPlaces(1)
           First(n) == SetMin({k \in 1..Len(order) : Num(mm, order[k]) = n})
           F == [n \in Used(mm) |-> First(n)]
           G == {F[n] : n \in Used(mm)}
       IN  [n \in Used(mm) |-> Rank(G, F[n])]

(* within a patch, the elements refer to the first one of several local nodes which are the same;
   triangles which have lost an edge are inactive *)
FirstLocal(mm, p, j) == SetMin({k \in 1..Len(mm.num[p]) : mm.num[p][k] = mm.num[p][j]})
Elms(mm, p) == [e \in 1..Len(mm.elm[p]) |-> [id |-> mm.elm[p][e].id, n |-> [k \in 1..Len(mm.elm[p][e].n) |-> FirstLocal(mm, p, mm.elm[p][e].n[k])]]]
Lost(mm, p, e) == LET q == Elms(mm, p)[e].n IN Len(q) = 3 /\ Cardinality(Range(q)) < 3
Reconnect(mm) ==
  [mm EXCEPT !.elm = TLCEval([p \in Pats |-> IF p \in Own THEN Elms(mm, p) ELSE mm.elm[p]]),
             !.dead = [p \in Pats |-> IF p \in Own THEN {e \in 1..Len(mm.elm[p]) : Lost(mm, p, e)} ELSE {}]]
Renumber(mm, keepOrder, reconnect) ==
  LET f == TLCEval(Consecutive(mm, keepOrder))
      m1 == [Map(mm, LAMBDA n : f[n]) EXCEPT !.g2l = f, !.state = "done"]
  IN  IF reconnect THEN Reconnect(m1) ELSE m1

(* ---------------- what is relied on ---------------- *)
\* numbers are equal exactly for the places which are the same node
Faithful == \A x, y \in Places : (Num(m, x) = Num(m, y)) <=> (y \in m.cls[x])
Compact == m.state = "done" => /\ Used(m) = 1..Cardinality(Used(m))
                               /\ \A a, b \in DOMAIN m.g2l : a # b => m.g2l[a] # m.g2l[b]
                               /\ Cardinality(DOMAIN m.g2l) = Cardinality({m.cls[x] : x \in Places})
\* boundary codes and constraints refer to existing nodes
NoneLost == \A p \in Pats : /\ \A k \in m.bc[p] : k[1] \in Used(m)
                            /\ \A e \in m.eqs[p] : e.s[1] \in Used(m) /\ \A k \in 1..Len(e.m) : e.m[k][1] \in Used(m)
\* the elements connect the same nodes as before
SameMesh == \A p \in Own : \A e \in 1..Len(m.elm[p]) : \A k \in 1..Len(m.elm[p][e].n) :
              m.cls[<<p, m.elm[p][e].n[k]>>] = m.cls[<<p, c.pat[p].elms[e].n[k]>>]
=============================================================================
