------------------------------- MODULE Coupled -------------------------------
(* Couplings of simulators: what is asked of the parts, in which order, and what is made of their answers. *)
(* The state of a coupling is a record d. While d.pc is not "idle", an operation is going on, and Expect(c,d) is the next *)
(* call of a part <<part, function, arguments, name>>; After(c,d,r,z) takes its result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 4096          \* one
Abs(x) == IF x < 0 THEN -x ELSE x
Parts(c) == IF c.kind = "n" THEN <<1, 2, 3>> ELSE IF c.kind = "semi" THEN [i \in 1..c.np |-> i] ELSE <<1, 2>>
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
New(c) == [pc |-> "idle", f |-> "", todo |-> <<>>, mode |-> "and", ok |-> 1, x |-> <<>>, n |-> "", done |-> <<>>, step |-> 0,
           u |-> <<0, 0>>, vtf |-> <<0, 0, 0>>, nostg |-> FALSE, reg |-> FALSE, nul |-> {}, dumped |-> [i \in 1..9 |-> -1], lev |-> [i \in 1..9 |-> 0],
           it |-> 0, order |-> <<1, 2>>, st |-> <<0, 0>>, conv |-> 3, om |-> 0, pres |-> 0, psol |-> 0, wild |-> FALSE]
\* in the order of the parts, until one of them fails
Each(ps, f, a, n) == [i \in 1..Len(ps) |-> <<ps[i], f, a, n>>]
Plan(d, f, mode, todo) == TLCEval([d EXCEPT !.pc = IF todo = <<>> THEN "idle" ELSE "plan", !.f = f, !.todo = TLCEval(todo), !.mode = mode,
                                   !.ok = IF mode = "or" THEN 0 ELSE 1, !.x = <<>>, !.n = "", !.done = <<>>])
RECURSIVE Before(_, _)
Before(s, i) == IF i = 0 THEN 0 ELSE s[i] + Before(s, i - 1)
MaxIt(c, d) == IF d.nostg THEN 0 ELSE IF c.mode = 1 THEN c.n ELSE IF c.mode = 2 THEN c.n * d.step ELSE IF c.mode = 3 THEN d.step + c.n ELSE 50
Fmod(x, m) == IF x < 0 THEN -((-x) % m) ELSE x % m
Other(s) == 3 - s
Iterated(d, s) == Fmod(3 * d.u[s] + d.u[Other(s)] + (d.step + d.it) * U, 16 * U)
\* the combined status of two parts: 0 failure, 1 diverged, 2 slow, 3 ok, 4 converged
Combine(a, b) == IF a = b THEN a ELSE IF 0 \in {a, b} THEN 0 ELSE IF 1 \in {a, b} THEN 1 ELSE 3
PlaneDue(d, k) == d.step <= 0 \/ d.step >= (IF d.dumped[k] > 0 THEN d.dumped[k] ELSE 0) + 1
Dumping(c, d) == IF d.reg THEN SelectSeq(Parts(c), LAMBDA k : PlaneDue(d, k)) ELSE <<>>

Start(c, d, f, a, n) ==
  LET P == Parts(c) IN
  CASE f \in {"pre", "des", "init", "adv"} -> Plan(d, f, "and", Each(P, f, IF f \in {"init", "adv"} THEN <<d.step>> ELSE IF f = "des" THEN <<0>> ELSE <<>>, ""))
    [] f = "ic" -> Plan(d, f, IF c.kind = "semi" THEN "all" ELSE "and", Each(P, f, <<>>, ""))
    [] f = "ser" -> Plan(d, f, "and", [i \in 1..Len(P) |-> <<P[i], f, <<i>>, "">>])
    [] f \in {"sys", "setdep", "regf"} -> Plan([d EXCEPT !.reg = @ \/ f = "regf"], f, "void", Each(P, f, <<>>, ""))
    [] f = "ale" -> Plan(d, f, "and", Each(P, f, <<>>, ""))
    [] f = "null" -> Plan([d EXCEPT !.nul = IF a[2] = 1 THEN @ \cup {a[1]} ELSE @ \ {a[1]}], f, "void", <<>>)
    [] f = "save" /\ c.kind # "semi" -> LET R == Reverse(P) IN Plan(d, f, "and", [i \in 1..Len(R) |-> <<R[i], f, <<d.step, 5 + Before(R, i - 1)>>, "">>])
    \* the results of all planes are written, if they are defined
    [] f = "save" /\ c.kind = "semi" ->
         LET D == Dumping(c, d)
             W == SelectSeq(D, LAMBDA k : k \notin d.nul)
             e == Plan(d, f, "void", [i \in 1..Len(W) |-> <<W[i], "dump", <<d.lev[W[i]]>>, "">>]) IN
         [e EXCEPT !.ok = IF Len(W) < Len(D) THEN 0 ELSE 1, !.x = <<5>>,
                   !.dumped = TLCEval([k \in 1..9 |-> IF \E i \in 1..Len(W) : W[i] = k THEN d.step ELSE @[k]]),
                   !.lev = TLCEval([k \in 1..9 |-> IF \E i \in 1..Len(W) : W[i] = k THEN @[k] + 1 ELSE @[k]])]
    [] f = "model" -> Plan(d, f, "and", << <<1, f, <<1>>, "">> >>)
    [] f = "solve" /\ c.kind # "si" ->
         Plan(d, f, "and", Each(IF c.kind = "semi" \/ a[1] = 1 THEN P ELSE IF c.kind = "n" THEN <<3, 1, 2>> ELSE <<2, 1>>, f, <<d.step>>, ""))
    [] f = "solve" /\ c.kind = "si" ->
         [Plan(d, f, "and", << <<0, "", <<>>, "">> >>) EXCEPT !.pc = "it", !.it = 0, !.order = IF a[1] = 1 THEN <<1, 2>> ELSE <<2, 1>>, !.todo = <<>>,
                                                            !.st = <<3, 3>>, !.conv = 3]
    [] f = "stag" -> [Plan(d, f, "void", <<>>) EXCEPT !.nostg = c.kind = "si" /\ a[1] = 0]
    [] f = "dep3" -> IF c.kind = "semi" THEN Plan(d, f, "void", [i \in 1..Len(P) |-> <<i, f, <<10 + i, a[1]>>, n>>]) ELSE Plan(d, f, "void", Each(P, f, a, n))
    [] f = "dep6" -> IF c.kind # "semi" THEN Plan(d, f, "void", Each(P, f, a, n))
                     ELSE IF a[2] # 0 THEN Plan(d, f, "void", [i \in 1..Len(P) |-> <<i, f, <<10 + i, a[1], 10 + i, a[2], a[3]>>, n>>])
                     ELSE Plan(d, f, "void", [i \in 1..Len(P) |-> <<i, "dep3", <<10 + i, a[1]>>, n>>])
    [] f \in {"hasic", "getf"} -> Plan(d, f, "or", Each(P, f, <<>>, n))
    [] f \in {"upc", "cps", "svp"} -> Plan(d, f, "val", << <<1, f, a, n>> >>)
    [] f = "name" -> LET q == IF c.kind = "n" THEN "P3" ELSE "P2" IN
                     [Plan(d, f, "void", <<>>) EXCEPT !.ok = 41, !.n = IF a[1] = 1 THEN "P1" ELSE IF a[1] = 2 THEN q ELSE "SIMCoupled<P1," \o q \o ">"]
    \* the parts do not own what they share
    [] f = "end" -> IF c.kind = "semi" THEN Plan(d, f, "void", Each(Tail(P), "clear", <<>>, "")) ELSE Plan(d, f, "void", Each(Reverse(Tail(P)), "vtf", <<0>>, ""))
    [] OTHER -> d

Expect(c, d) ==
  CASE d.pc = "plan" -> Head(d.todo)
    [] d.pc = "it" -> LET s == d.order[1] IN <<s, "it", <<d.step, d.it, Iterated(d, s)>>, "">>
    [] d.pc = "it2" -> LET s == d.order[2] IN <<s, "it", <<d.step, d.it, Iterated(d, s)>>, "">>
    [] d.pc = "chk" -> <<0, "chk", <<d.st[1], d.st[2], Combine(d.st[1], d.st[2])>>, "">>
    [] d.pc = "relax" -> <<0, "relax", <<d.psol>>, "">>
    [] OTHER -> <<"nothing">>

Finish(d, ok, x) == [d EXCEPT !.pc = "idle", !.todo = <<>>, !.ok = ok, !.x = x]
Ended(c, d) == IF d.f = "save" /\ c.kind # "semi" THEN [d EXCEPT !.pc = "idle", !.x = <<5 + Before(d.done, Len(d.done))>>]
               ELSE IF d.f = "model" THEN [d EXCEPT !.pc = "idle", !.x = <<4, 7, d.vtf[1]>>]
               ELSE IF d.f = "ser" THEN [d EXCEPT !.pc = "idle", !.x = <<Len(d.done)>>]
               ELSE IF d.f = "pre" /\ c.kind = "semi" /\ d.ok = 1 THEN [d EXCEPT !.pc = "idle", !.x = TLCEval([i \in 1..c.np |-> 10 + i])]
               ELSE IF d.f = "solve" /\ c.kind = "si" THEN [d EXCEPT !.pc = "idle", !.x = <<d.it, 0>>]
               ELSE IF d.f = "solve" THEN [d EXCEPT !.pc = "idle", !.x = IF c.kind = "semi" THEN <<0, 0>> ELSE <<0, 1>>]
               ELSE [d EXCEPT !.pc = "idle"]
\* the iteration goes on while not converged, up to the limit
Again(c, d) == LET e == [d EXCEPT !.it = @ + 1] IN
               IF e.it <= MaxIt(c, e) /\ e.conv # 4 THEN [e EXCEPT !.pc = "it"]
               ELSE [e EXCEPT !.pc = "plan", !.mode = "void", !.todo = << <<1, "post", <<e.step, e.it, 1>>, "">>, <<2, "post", <<e.step, e.it, 1>>, "">> >>]
\* z: the residual of the relaxed field
Relax(c, d, z) ==
  IF c.om = 0 THEN Again(c, d)
  ELSE IF d.it = 0 THEN Again(c, [d EXCEPT !.om = c.om, !.psol = d.u[1], !.pres = z])
  ELSE LET r == z - d.pres
           o == IF ~c.ait THEN d.om ELSE IF r = 0 \/ d.om * d.pres = 0 THEN c.om ELSE ((IF r < 0 THEN 1 ELSE -1) * (d.om * d.pres)) \div Abs(r)
           exact == ~c.ait \/ r = 0 \/ (d.om * d.pres) % Abs(r) = 0
           v == (64 - o) * d.psol + o * d.u[1]
           fits == Abs(o) <= 1024 /\ Abs(d.psol) <= 2^20 /\ Abs(d.u[1]) <= 2^20 IN
       IF ~exact \/ ~fits THEN [d EXCEPT !.wild = TRUE]
       ELSE IF v % 64 # 0 THEN [d EXCEPT !.wild = TRUE]
       ELSE [d EXCEPT !.om = o, !.psol = v \div 64, !.pres = z, !.pc = "relax"]
After(c, d, r, z) ==
  CASE d.pc = "plan" ->
         LET p == Head(d.todo)
             rest == IF d.f = "model" /\ p[2] = "model" /\ r = 1
                     THEN IF c.kind = "n" THEN << <<2, "vtf", <<1>>, "">>, <<3, "vtf", <<1>>, "">> >> ELSE << <<2, "vtf", <<1>>, "">> >>
                     ELSE Tail(d.todo)
             stop == (d.mode = "and" /\ r = 0) \/ (d.mode = "or" /\ r = 1)
             e == [d EXCEPT !.todo = IF stop THEN <<>> ELSE rest, !.done = Append(@, p[1]),
                            !.ok = IF d.mode = "or" THEN (IF r = 1 THEN IF d.f = "getf" THEN p[1] ELSE 1 ELSE 0)
                                   ELSE IF d.mode = "val" THEN r ELSE IF d.mode = "void" \/ p[2] = "vtf" THEN @ ELSE IF r = 0 THEN 0 ELSE @,
                            !.vtf = IF p[2] = "model" /\ r = 1 THEN [@ EXCEPT ![1] = 1] ELSE IF p[2] = "vtf" THEN [@ EXCEPT ![p[1]] = p[3][1]] ELSE @] IN
         IF e.todo = <<>> THEN Ended(c, e) ELSE e
    [] d.pc \in {"it", "it2"} ->
         LET s == d.order[IF d.pc = "it" THEN 1 ELSE 2]
             e == [d EXCEPT !.u = [@ EXCEPT ![s] = Iterated(d, s)], !.st = [@ EXCEPT ![s] = r], !.done = Append(@, s)] IN
         IF r <= 1 THEN Finish(e, 0, <<d.it, 1>>) ELSE [e EXCEPT !.pc = IF d.pc = "it" THEN "it2" ELSE "chk"]
    [] d.pc = "chk" -> IF r <= 1 THEN Finish(d, 0, <<d.it, 1>>) ELSE Relax(c, [d EXCEPT !.conv = r], z)
    [] d.pc = "relax" -> Again(c, [d EXCEPT !.u = [@ EXCEPT ![1] = d.psol]])
    [] OTHER -> d

(* Fields of simulators which others depend on: m has the values, the fields and the dependencies of the simulators. *)
Nodes == << <<1, 3, 2>>, <<4, 2>>, <<6, 5, 1, 4>> >>
Nf == <<1, 2, 1>>
Madof == <<1, 2, 4, 5, 5, 7, 8>>
Fields0 == [val |-> [v \in 0..4 |-> <<>>], field |-> [s \in 1..3 |-> <<>>], dep |-> [s \in 1..3 |-> <<>>], vec |-> [s \in 1..3 |-> {}]]
Model(s) == [k \in 1..3 |-> ((s - 1 + k - 1) % 3) + 1]
SetField(m, s, n, v) == TLCEval([m EXCEPT !.field = [@ EXCEPT ![s] = TLCEval([x \in DOMAIN @ \cup {n} |-> IF x = n THEN v ELSE @[x]])]])
NoField == <<-1>>
FieldOf(m, s, n) == IF n \in DOMAIN m.field[s] THEN m.val[m.field[s][n]] ELSE NoField
Has(m, s, n) == n \in DOMAIN m.field[s]
\* the first one with that name
DepOf(m, s, n) == LET I == {i \in 1..Len(m.dep[s]) : m.dep[s][i].n = n} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
DepField(m, s, n) == LET i == DepOf(m, s, n) IN IF i = 0 THEN NoField ELSE FieldOf(m, m.dep[s][i].on, n)
DepPatch(m, s, n, k) == LET i == DepOf(m, s, n) IN IF i = 0 THEN 0 ELSE IF k < 0 \/ k >= Len(m.dep[s][i].p) THEN 0 ELSE m.dep[s][i].p[k + 1]
RECURSIVE Cat(_, _)
Cat(F, k) == IF k = 0 THEN <<>> ELSE Cat(F, k - 1) \o F[k]
Local(e, patch, g) ==
  LET N == Nodes[patch]
      nd == IF e.diff # 0 /\ e.nvc # Nf[patch] THEN Nf[patch] ELSE Abs(e.nvc) IN
  IF e.mode = 2 THEN Cat([i \in 1..Len(N) |-> [j \in 1..(Madof[N[i] + 1] - Madof[N[i]]) |-> g[Madof[N[i]] + j - 1]]], Len(N))
  ELSE Cat([i \in 1..Len(N) |-> [j \in 1..nd |-> g[(N[i] - 1) * nd + j]]], Len(N))
\* the local vectors of a patch of simulator s; acc: [ok, v: function from names to values, m: the basis asked for]
RECURSIVE Extract(_, _, _, _, _)
Extract(m, s, k, i, acc) ==
  IF i > Len(m.dep[s]) \/ ~acc.ok THEN acc
  ELSE LET e == m.dep[s][i]
           g == FieldOf(m, e.on, e.n)
           patch == IF k < Len(e.p) THEN e.p[k + 1] ELSE Model(s)[k + 1] IN
       Extract(m, s, k, i + 1,
         IF e.n \notin m.vec[s] THEN acc
         ELSE IF ~Has(m, e.on, e.n) THEN [acc EXCEPT !.ok = FALSE]
         ELSE IF g = <<>> THEN [acc EXCEPT !.v = [@ EXCEPT ![e.n] = <<>>]]
         ELSE [acc EXCEPT !.v = TLCEval([@ EXCEPT ![e.n] = TLCEval(Local(e, patch, g))]),
                          !.m = IF e.diff > 0 THEN TLCEval([@ EXCEPT ![e.n] = IF e.nvc = 1 THEN e.comp ELSE -1]) ELSE @])
Extraction(m, s, k) == Extract(m, s, k, 1, [ok |-> TRUE, v |-> [x \in m.vec[s] |-> <<-7>>], m |-> [x \in m.vec[s] |-> 0]])
=============================================================================
