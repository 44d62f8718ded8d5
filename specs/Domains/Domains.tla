------------------------------ MODULE Domains ------------------------------
(* Domain decomposition of structured models, as seen by one process: the splitting of the elements of a patch into
   overlapping subdomains, the matching of the points of two connected boundaries, the order in which the connections
   to other processes are served, and the equation maps of the whole system and of its equation blocks.

   c: the model.  nd, nf: parameter directions, unknowns in each node of the first type.  mix: each element has a node
      of the second type with one unknown.  lm: the first patch has a multiplier, coupled to all of its elements.
      pat[p].e: elements in each direction, .nodes: global node numbers, .fix: <<node, unknowns, ...>>.
   m: the decomposition.  own: patch -> process, ifs: connections within the model, ghosts: connections to other
      processes, neq: unknowns of the system, blk: the unknowns of each block, sam: whether it is set up,
      cut: the subdomains placed so far of a direction being split. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c, m

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[k] : k \in 1..Len(s)}

(* ---- splitting of one direction with n elements into g subdomains: placed one after the other ---- *)
Size(n, g) == (n \div g) + 1
Advance(n, g, o) == Max2(Size(n, g) - o, 0)
NoCut == [n |-> 0, g |-> 0, o |-> 0, at |-> 0, p |-> <<>>]
CutFrom(n, g, o) == [n |-> n, g |-> g, o |-> o, at |-> 0, p |-> <<>>]
\* the last one takes all that is left, which may be nothing
CutNext(q) ==
  LET last == Len(q.p) + 1 = q.g
      to == IF last THEN q.n ELSE Min2(q.at + Size(q.n, q.g), q.n)
  IN  [q EXCEPT !.p = Append(@, q.at..(to - 1)), !.at = @ + Advance(q.n, q.g, q.o)]
RECURSIVE CutAll(_)
CutAll(q) == IF Len(q.p) = q.g THEN q.p ELSE CutAll(CutNext(q))
Pieces(n, g, o) == CutAll(CutFrom(n, g, o))

CutCover(q) == Len(q.p) = q.g /\ q.g > 0 => UNION Rng(q.p) = 0..(q.n - 1)
CutOverlap(q) == \A k \in 1..(Len(q.p) - 1) :
  LET a == q.p[k] b == q.p[k + 1] s == Size(q.n, q.g)
  IN  /\ q.o < s /\ Cardinality(a) = s => Cardinality(a \cap b) = q.o
      /\ q.o = 0 => a \cap b = {}
CutRanges(q) == \A k \in 1..Len(q.p) : \A x, y \in q.p[k] : x..y \subseteq q.p[k]

\* all directions: the subdomains with the first direction running fastest
Grid(n, g, o) ==
  LET d == Len(n)
      P == [i \in 1..d |-> Pieces(n[i], g[i], o)]
      g1 == g[1]  g2 == IF d > 1 THEN g[2] ELSE 1  g3 == IF d > 2 THEN g[3] ELSE 1
      n1 == n[1]  n2 == IF d > 1 THEN n[2] ELSE 1
      S(i, k) == IF i > d THEN {0} ELSE P[i][k]
  IN  [s \in 1..(g1 * g2 * g3) |->
         LET a == (s - 1) % g1 b == ((s - 1) \div g1) % g2 e == (s - 1) \div (g1 * g2)
         IN  {x + n1 * (y + n2 * z) : x \in S(1, a + 1), y \in S(2, b + 1), z \in S(3, e + 1)}]

(* ---- matching of the points of a slave boundary with those of its master ---- *)
\* orientation of a face: 4 = the directions are swapped, 2 / 1 = the first / second slave direction is reversed
Match(d1, d2, o, k, l) ==
  LET kk == IF (o \div 2) % 2 = 1 THEN d1 - 1 - k ELSE k
      ll == IF o % 2 = 1 THEN d2 - 1 - l ELSE l
  IN  IF o \div 4 = 1 THEN ll + (kk * d2) ELSE kk + (ll * d1)
FaceMap(d1, d2, o) == [i \in 1..(d1 * d2) |-> Match(d1, d2, o, (i - 1) % d1, (i - 1) \div d1)]
LineMap(n, o) == [i \in 1..n |-> IF o = 0 THEN i - 1 ELSE n - i]
\* the orientation which leads back
Back(o) == IF o = 5 THEN 6 ELSE IF o = 6 THEN 5 ELSE o
\* points in the directions along boundary lidx, given those of the patch
Face(n, l) == IF l < 3 THEN <<n[2], n[3]>> ELSE IF l < 5 THEN <<n[1], n[3]>> ELSE <<n[1], n[2]>>
EdgeLen(n, l) == IF l < 5 THEN n[1] ELSE IF l < 9 THEN n[2] ELSE n[3]
NodesDir(p, b) == [i \in 1..3 |-> IF i > c.nd THEN 0 ELSE c.pat[p].e[i] + (IF b < 2 THEN 1 ELSE 0)]
NodeMap(p, o, l, b, dim) ==
  LET n == NodesDir(p, b)
  IN  IF dim = 0 THEN <<0>>
      ELSE IF c.nd = 3 THEN IF dim = 1 THEN LineMap(EdgeLen(n, l), o) ELSE FaceMap(Face(n, l)[1], Face(n, l)[2], o)
      ELSE LineMap(IF l < 3 THEN n[2] ELSE n[1], o)
ElmDir(p) == c.pat[p].e
ElmMap(p, o, l) ==
  LET n == ElmDir(p)
  IN  IF c.nd = 3 THEN FaceMap(Face(n, l)[1], Face(n, l)[2], o) ELSE LineMap(IF l < 3 THEN n[2] ELSE n[1], o)

(* ---- elements ---- *)
E(p) == [i \in 1..3 |-> IF i > c.nd THEN 1 ELSE c.pat[p].e[i]]
NoElms(p) == E(p)[1] * E(p)[2] * E(p)[3]
RECURSIVE Before(_)
Before(p) == IF p = 1 THEN 0 ELSE Before(p - 1) + NoElms(p - 1)
\* the elements along a boundary, the first direction running fastest (numbered from 0, in the patch)
BndElms(p, l) ==
  LET n == E(p) dir == ((l - 1) \div 2) + 1 at == IF (l - 1) % 2 = 1 THEN n[dir] - 1 ELSE 0
      X(k) == <<k % n[1], (k \div n[1]) % n[2], k \div (n[1] * n[2])>>
  IN  SelectSeq([k \in 1..NoElms(p) |-> k - 1], LAMBDA k : X(k)[dir] = at)
\* the neighbours of all elements, one for each side
Neighbours ==
  LET all == [k \in 1..(Before(Len(c.pat)) + NoElms(Len(c.pat))) |-> [s \in 1..(2 * c.nd) |-> -1]]
      RECURSIVE F(_, _)
      F(k, nb) ==
        IF k > Len(m.ifs) THEN nb
        ELSE LET f == m.ifs[k]
                 S == BndElms(f.s, f.si)  M == BndElms(f.m, f.mi)
                 map == ElmMap(f.s, f.o, f.si)
                 RECURSIVE G(_, _)
                 G(i, x) == IF i > Len(S) THEN x
                            ELSE LET se == Before(f.s) + S[i] me == Before(f.m) + M[map[i] + 1]
                                 IN  G(i + 1, [x EXCEPT ![se + 1][f.si] = me, ![me + 1][f.mi] = se])
             IN  F(k + 1, G(1, nb))
  IN  F(1, all)
ElmNodes(p, k) ==       \* k from 0; global node numbers
  LET n == E(p) x == k % n[1] y == (k \div n[1]) % n[2] z == k \div (n[1] * n[2])
      n1 == n[1] + 1  n2 == IF c.nd > 1 THEN n[2] + 1 ELSE 1  n3 == IF c.nd > 2 THEN n[3] + 1 ELSE 1
      D(i) == IF i > c.nd THEN {0} ELSE {0, 1}
  IN  {c.pat[p].nodes[1 + x + a + n1 * (y + b + n2 * (z + d))] : a \in D(1), b \in D(2), d \in D(3)}
      \cup (IF c.mix = 1 THEN {c.pat[p].nodes[1 + n1 * n2 * n3 + k]} ELSE {})
      \cup (IF c.lm = 1 /\ p = 1 THEN {c.nn} ELSE {})

(* ---- equations ---- *)
FirstType(p) == LET n1 == c.pat[p].e[1] + 1 n2 == IF c.nd > 1 THEN c.pat[p].e[2] + 1 ELSE 1 n3 == IF c.nd > 2 THEN c.pat[p].e[3] + 1 ELSE 1
                IN  {c.pat[p].nodes[k] : k \in 1..(n1 * n2 * n3)}
Type(n) == IF c.lm = 1 /\ n = c.nn THEN 3 ELSE IF \E p \in 1..Len(c.pat) : n \in FirstType(p) THEN 1 ELSE 2
DofsOf(n) == IF Type(n) = 1 THEN c.nf ELSE 1
\* digits of a number such as 12 or 123
RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN {} ELSE {x % 10} \cup Digits(x \div 10)
IsFixed(n, d) == \E p \in 1..Len(c.pat) : \E k \in 1..(Len(c.pat[p].fix) \div 2) :
                    c.pat[p].nodes[c.pat[p].fix[(2 * k) - 1]] = n /\ d \in Digits(c.pat[p].fix[2 * k])
\* the unknowns are numbered node by node
Numbering ==
  LET RECURSIVE F(_, _, _)
      F(n, eq, s) ==
        IF n > c.nn THEN s
        ELSE LET free == SelectSeq([d \in 1..DofsOf(n) |-> d], LAMBDA d : ~IsFixed(n, d))
                 num == [d \in 1..DofsOf(n) |-> IF IsFixed(n, d) THEN 0
                                                ELSE eq + Cardinality({x \in Rng(free) : x <= d})]
             IN  F(n + 1, eq + Len(free), Append(s, num))
  IN  F(1, 0, <<>>)
NoEqs(num) == Cardinality({<<n, d>> \in (1..c.nn) \X (1..3) : d <= Len(num[n]) /\ num[n][d] > 0})
\* the unknowns of a block: of the given node types and components (0 = all of them)
BlockEqs(num, b, second) ==
  {x \in UNION {{num[n][d] : d \in {e \in 1..Len(num[n]) :
                                      (Type(n) \in Digits(b[1]) /\ (b[2] = 0 \/ e \in Digits(b[2])))
                                      \/ (second /\ Type(n) = 3 /\ e = 1)}} : n \in 1..c.nn} : x > 0}

Fresh == [own |-> <<-1, -1, -1, -1>>, ifs |-> <<>>, ghosts |-> {}, neq |-> 0, blk |-> <<>>, sam |-> FALSE, num |-> <<>>, cut |-> NoCut]
Init(cfg) == c = cfg /\ m = Fresh

SetUp(bs, num) ==
  [m EXCEPT !.sam = TRUE, !.num = num, !.neq = NoEqs(num),
            !.blk = IF Len(bs) > 1 THEN [k \in 1..Len(bs) |-> BlockEqs(num, bs[k], k = 2)] ELSE m.blk]
Clear == [m EXCEPT !.own = Fresh.own, !.ghosts = {}, !.neq = 0, !.blk = <<>>, !.sam = FALSE, !.num = <<>>]
SetOwner(p, o) == [m EXCEPT !.own[p] = o]
Connect(f) == [m EXCEPT !.ifs = Append(@, f)]
Keep(i) == [m EXCEPT !.ghosts = @ \cup {i}]
SetNoEqs(n) == [m EXCEPT !.neq = n]

\* the unknowns of block b (0 = the whole system), and their numbers within it
EqsOf(b) == IF b = 0 THEN 1..m.neq ELSE m.blk[b]
LocalNo(b, eq) == IF b = 0 THEN eq ELSE Cardinality({x \in m.blk[b] : x <= eq})
GlobalNo(b, l) == IF b > Len(m.blk) THEN 0 ELSE IF l < 1 \/ l > Cardinality(EqsOf(b)) THEN 0 ELSE l

\* the unknowns of each subdomain of all patches
Subdomains(g, o, b) ==
  LET G == [i \in 1..c.nd |-> Max2(g[i], 1)]
      each == [p \in 1..Len(c.pat) |->
                 LET parts == Grid(SubSeq(c.pat[p].e, 1, c.nd), G, o)
                 IN  [s \in 1..Len(parts) |->
                        {LocalNo(b, x) : x \in EqsOf(b) \cap UNION {Rng(m.num[n]) : n \in UNION {ElmNodes(p, k) : k \in parts[s]}}}]]
      RECURSIVE Cat(_)
      Cat(p) == IF p > Len(c.pat) THEN <<>> ELSE each[p] \o Cat(p + 1)
      all == Cat(1)
      tot == Max2(g[1], 1) * Max2(g[2], 1) * Max2(g[3], 1) * Len(c.pat)
  IN  [s \in 1..tot |-> IF s <= Len(all) THEN all[s] ELSE {}]

\* connections to other processes <<master, slave, midx, sidx, dim, basis, orient>> are served in this order
OwnerOf(p) == IF p \in 1..4 THEN m.own[p] ELSE -1
Key(f) == <<OwnerOf(f[1]), OwnerOf(f[2]), f[2], f[5], f[6], f[3]>>
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
Ordered(s) == \A k \in 1..(Len(s) - 1) : Leq(Key(s[k]), Key(s[k + 1]))

(* ---- properties ---- *)
SplitOK == CutCover(m.cut) /\ CutOverlap(m.cut) /\ CutRanges(m.cut)
\* each block numbers its own unknowns without gaps
NumberedOK == \A b \in 0..Len(m.blk) : {LocalNo(b, x) : x \in EqsOf(b)} = 1..Cardinality(EqsOf(b))
=============================================================================
