-------------------------------- MODULE Input --------------------------------
(* Reading of input files: inclusion, the order in which the elements are offered, and the simulation options. *)
(* A node is [n: name, a: attributes, t: text, c: children]; a text has the name "". *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxDepth == 10     \* levels of inclusion
None == "<none>"
Bad == [ok |-> FALSE, x |-> [n |-> "", a |-> <<>>, t |-> "", c |-> <<>>]]
Good(x) == [ok |-> TRUE, x |-> x]
FileOf(c, f) == LET I == {i \in 1..Len(c.files) : c.files[i].f = f} IN IF I = {} THEN Bad ELSE LET i == CHOOSE i \in I : TRUE IN [ok |-> c.files[i].ok, x |-> c.files[i].x]
Text(x) == IF x.c = <<>> \/ x.c[1].n # "" THEN "" ELSE x.c[1].t
\* the elements with all inclusions replaced by the contents of the files, at the given level of inclusion
RECURSIVE Expand(_, _, _), ExpandAll(_, _, _, _)
Expand(c, x, k) ==
  IF x.n = "include"
  THEN LET f == FileOf(c, Text(x)) IN IF k >= MaxDepth \/ ~f.ok THEN Bad ELSE Expand(c, f.x, k + 1)
  ELSE LET l == ExpandAll(c, x.c, k, 1) IN IF l.ok THEN Good([x EXCEPT !.c = l.x]) ELSE Bad
ExpandAll(c, l, k, i) ==
  IF i > Len(l) THEN Good(<<>>)
  ELSE LET x == TLCEval(Expand(c, l[i], k)) IN
       IF ~x.ok THEN [ok |-> FALSE, x |-> <<>>]
       ELSE LET r == TLCEval(ExpandAll(c, l, k, i + 1)) IN IF r.ok THEN Good(<<x.x>> \o r.x) ELSE r
Document(c) == LET f == FileOf(c, c.main) IN IF ~f.ok \/ f.x.n # "simulation" THEN Bad ELSE Expand(c, f.x, 0)
\* the first one of each of the priority elements, then the others as they come
RECURSIVE First(_, _, _)
First(l, p, i) == IF i > Len(p) THEN <<>>
                  ELSE LET I == {j \in 1..Len(l) : l[j].n = p[i]} IN
                       (IF I = {} THEN <<>> ELSE <<CHOOSE j \in I : \A k \in I : j <= k>>) \o First(l, p, i + 1)
RECURSIVE Rest(_, _, _)
Rest(l, F, j) == IF j > Len(l) THEN <<>> ELSE IF l[j].n = "" \/ j \in F THEN Rest(l, F, j + 1) ELSE <<j>> \o Rest(l, F, j + 1)
Order(l, p) == LET f == First(l, p, 1) IN f \o Rest(l, {f[i] : i \in 1..Len(f)}, 1)
Offered(l, p) == LET o == Order(l, p) IN TLCEval([i \in 1..Len(o) |-> l[o[i]]])

(* The options; all values are texts. *)
Default(c) == [discr |-> "2", solver |-> "2", g0 |-> "4", g1 |-> "4", eig |-> "0", nev |-> "10", ncv |-> "20", shift |-> "0",
               format |-> "-1", n0 |-> "2", n1 |-> "2", n2 |-> "2", saveInc |-> "1", dtSave |-> "0", pSol |-> "0", trac |-> "0", norms |-> "0", log |-> "0",
               hdf5 |-> "", vtf |-> "", rInc |-> "0", rStep |-> "-1", rFile |-> "", slu |-> c.thr, groups |-> "0", cache |-> "1", msg |-> "2", proj |-> {}]
\* a file name without its extension
Stem(s) == CASE s = "res.h5" -> "res" [] s = "../out/res.h5" -> "../out/res" [] s = "../res" -> "../res" [] s = "./r" -> "./r" [] s = "o.d/res" -> "o.d/res"
             [] s = "o.d/res.hdf5" -> "o.d/res" [] s = "a.b.h5" -> "a.b" [] s = "a.xinp" -> "a" [] OTHER -> s
Low(s) == CASE s = "Lagrange" -> "lagrange" [] s = "SPLINES" -> "splines" [] s = "UMFPACK" -> "umfpack" [] s = "ASCII" -> "ascii" [] s = "Postprocessing" -> "postprocessing"
            [] s = "NEV" -> "nev" [] s = "Restart" -> "restart" [] s = "SCR" -> "scr" [] s = "HDF5" -> "hdf5" [] OTHER -> s
Discr(o, s) == CASE s = "lagrange" -> "0" [] s = "spectral" -> "1" [] s = "splines" -> "2" [] s = "lrsplines" -> "4" [] s = "triangular" -> "-1" [] OTHER -> o
Solver(o, s) == CASE s = "dense" -> "0" [] s = "spr" -> "1" [] s = "superlu" -> "2" [] s = "samg" -> "3" [] s = "petsc" -> "4" [] s = "istl" -> "5" [] s = "umfpack" -> "6" [] OTHER -> o
\* the projection methods
Proj(s, v) == CASE s \in {"global", "grvl"} -> {1} [] s = "vdsa" -> {2} [] s = "quasi" -> {3} [] s = "lsq" -> {4} [] s = "dgl2" -> {5}
                [] s = "cgl2" -> IF v = "1" THEN {6} ELSE {7} [] s = "gl2" -> {7} [] s = "scr" -> {8} [] s \in {"residual", "residuals"} -> {0} [] OTHER -> {}
Attr(x, k) == LET I == {i \in 1..Len(x.a) : x.a[i].k = k} IN IF I = {} THEN None ELSE x.a[CHOOSE i \in I : TRUE].v
Or(v, o) == IF v = None THEN o ELSE v
\* the text of an element, or None
Content(x) == IF x.c = <<>> THEN None ELSE IF x.c[1].n = "" THEN x.c[1].t ELSE x.c[1].n
Value(x) == IF Attr(x, "value") # None THEN Attr(x, "value") ELSE Content(x)
Gauss(s) == CASE s = "3" -> <<"3", "3">> [] s = "3 5" -> <<"3", "5">> [] s = "2 4 9" -> <<"2", "4">> [] s = "-1 2" -> <<"-1", "2">> [] OTHER -> <<s, s>>
GaussDef(s) == CASE s = "1" -> "11" [] s = "2" -> "12" [] s = "5" -> "15" [] OTHER -> s
DiscrTag(o, x) ==
  IF x.n = "discretization"
  THEN LET d == IF Attr(x, "type") = None THEN o.discr ELSE Discr(o.discr, Low(Attr(x, "type")))
           p == Attr(x, "cache_policy")
           k == CASE p = "disable" -> "0" [] p = "precalc" -> "1" [] p = "onthefly" -> "2" [] p = "full" -> "3" [] OTHER -> IF d \in {"-1", "0", "1"} THEN "0" ELSE o.cache IN
       [o EXCEPT !.discr = d, !.cache = k]
  ELSE IF x.n = "nGauss"
  THEN IF Attr(x, "default") # None THEN LET g == GaussDef(Attr(x, "default")) IN [o EXCEPT !.g0 = g, !.g1 = g]
       ELSE IF x.c # <<>> THEN LET g == Gauss(Content(x)) IN [o EXCEPT !.g0 = g[1], !.g1 = g[2]] ELSE o
  ELSE o
EigTag(o, x) ==
  LET n == Low(x.n) v == Value(x) IN
  IF v = None THEN o
  ELSE CASE n = "mode" -> [o EXCEPT !.eig = v] [] n = "nev" -> [o EXCEPT !.nev = v] [] n = "ncv" -> [o EXCEPT !.ncv = v] [] n = "shift" -> [o EXCEPT !.shift = v] [] OTHER -> o
RECURSIVE Projs(_, _)
Projs(l, i) == IF i > Len(l) THEN {} ELSE (IF l[i].n = "" THEN {} ELSE Proj(Low(l[i].n), Or(Attr(l[i], "version"), "1"))) \cup Projs(l, i + 1)
OutTag(o, x) ==
  LET n == Low(x.n) v == Value(x) IN
  CASE n = "vtfformat" ->
         IF o.format = "-2" THEN o
         ELSE LET f == IF x.c = <<>> THEN o.format ELSE IF Low(Content(x)) = "ascii" THEN "0" ELSE IF Low(Content(x)) = "binary" THEN "1" ELSE o.format
                  z == Attr(x, "nviz") IN
              [o EXCEPT !.format = f, !.vtf = IF Attr(x, "file") = None THEN @ ELSE Stem(Attr(x, "file")),
                        !.n0 = Or(Attr(x, "nu"), Or(z, @)), !.n1 = Or(Attr(x, "nv"), Or(z, @)), !.n2 = Or(Attr(x, "nw"), Or(z, @))]
    [] n = "stride" -> [o EXCEPT !.saveInc = Or(v, @), !.dtSave = Or(Attr(x, "dt"), @)]
    [] n = "restartstride" -> [o EXCEPT !.rInc = Or(v, @)]
    [] n = "hdf5" -> [o EXCEPT !.hdf5 = IF x.c = <<>> THEN "(default)" ELSE Stem(Content(x))]
    [] n = "primarySolOnly" -> [o EXCEPT !.pSol = "1"]
    [] n = "saveTraction" -> [o EXCEPT !.trac = "1"]
    [] n = "saveNorms" -> [o EXCEPT !.norms = "1"]
    [] n = "saveLog" -> [o EXCEPT !.log = "1"]
    [] n = "projection" -> [o EXCEPT !.proj = @ \cup (IF Attr(x, "type") = None THEN {} ELSE Proj(Low(Attr(x, "type")), "1")) \cup Projs(x.c, 1)]
    [] n = "residual" -> [o EXCEPT !.proj = @ \cup {0}]
    [] OTHER -> o
\* a result function must have a name
Rejected(x) == Low(x.n) = "postprocessing" /\ \E i \in 1..Len(x.c) : x.c[i].n = "function" /\ Value(x.c[i]) # None /\ Attr(x.c[i], "name") \in {None, ""}
RECURSIVE Over(_, _, _, _)
Over(o, l, i, k) == IF i > Len(l) THEN o
                    ELSE Over(IF l[i].n = "" THEN o ELSE IF k = 1 THEN DiscrTag(o, l[i]) ELSE IF k = 2 THEN EigTag(o, l[i]) ELSE IF k = 3 THEN OutTag(o, l[i])
                              ELSE IF Low(l[i].n) = "class" /\ l[i].c # <<>> THEN [o EXCEPT !.solver = Solver(@, Content(l[i]))] ELSE o, l, i + 1, k)
Apply(o, x) ==
  LET n == Low(x.n) IN
  CASE n = "discretization" -> Over(DiscrTag(o, x), x.c, 1, 1)
    [] n = "restart" -> [o EXCEPT !.rStep = Or(Attr(x, "step"), @), !.rFile = IF Attr(x, "file") # None THEN Attr(x, "file") ELSE IF x.c # <<>> THEN Content(x) ELSE @]
    [] n = "linearsolver" -> Over([o EXCEPT !.solver = IF Attr(x, "class") = None THEN @ ELSE Solver(@, Low(Attr(x, "class")))], x.c, 1, 4)
    [] n = "eigensolver" -> Over([o EXCEPT !.eig = Or(Attr(x, "mode"), @)], x.c, 1, 2)
    [] n = "postprocessing" -> Over(o, x.c, 1, 3)
    [] n = "messageLevel" -> [o EXCEPT !.msg = Or(Value(x), @)]
    [] OTHER -> o

\* texts which are not numbers
Num(s) == IF s \in {"a.xinp", "verbose", "-nev", "-no-vtf", "file"} THEN "0" ELSE s
(* The command-line: t is a sequence of [s: text, d: whether it starts with a dash]. *)
RECURSIVE Cli(_, _, _)
Cli(o, t, i) ==
  IF i > Len(t) THEN o
  ELSE LET s == t[i].s
           more == i < Len(t)
           v == IF more THEN t[i + 1].s ELSE None
           m == Num(v)
           w == more /\ ~t[i + 1].d
           Next1(p) == Cli(p, t, i + 1)
           Next2(p) == Cli(p, t, i + 2) IN
       CASE s = "-dense" -> Next1([o EXCEPT !.solver = "0"])
         [] s = "-spr" -> Next1([o EXCEPT !.solver = "1"])
         [] s = "-superlu" -> Next1([o EXCEPT !.solver = "2"])
         [] s = "-superlu3" -> Next1([o EXCEPT !.solver = "2", !.slu = "3"])
         [] s = "-samg" -> Next1([o EXCEPT !.solver = "3"])
         [] s = "-umfpack" -> Next1([o EXCEPT !.solver = "6"])
         [] s = "-petsc" -> Next1([o EXCEPT !.solver = "4"])
         [] s = "-istl" -> Next1([o EXCEPT !.solver = "5"])
         [] s = "-validateGroups" -> Next1([o EXCEPT !.groups = "1"])
         [] s \in {"-lag", "-lagrange"} -> Next1([o EXCEPT !.discr = "0"])
         [] s = "-triangle" -> Next1([o EXCEPT !.discr = "-1"])
         [] s \in {"-spec", "-spectral"} -> Next1([o EXCEPT !.discr = "1"])
         [] s = "-LR" -> Next1([o EXCEPT !.discr = "4"])
         [] s = "-nGauss" /\ more -> Next2([o EXCEPT !.g0 = m, !.g1 = m])
         [] s = "-vtf" /\ more -> Next2([o EXCEPT !.format = m])
         [] s = "-no-vtf" -> Next1([o EXCEPT !.format = "-2"])
         [] s = "-nviz" /\ more -> Next2([o EXCEPT !.n0 = m, !.n1 = m, !.n2 = m])
         [] s = "-nu" /\ more -> Next2([o EXCEPT !.n0 = m])
         [] s = "-nv" /\ more -> Next2([o EXCEPT !.n1 = m])
         [] s = "-nw" /\ more -> Next2([o EXCEPT !.n2 = m])
         [] s = "-hdf5" -> IF w THEN Next2([o EXCEPT !.hdf5 = Stem(v)]) ELSE Next1([o EXCEPT !.hdf5 = "(default)"])
         [] s = "-vtffile" -> IF w THEN Next2([o EXCEPT !.vtf = Stem(v)]) ELSE Next1(o)
         [] s = "-saveInc" /\ more -> Next2([o EXCEPT !.dtSave = m])
         [] s = "-restart" /\ more -> IF i + 2 <= Len(t) /\ ~t[i + 2].d THEN Cli([o EXCEPT !.rFile = Stem(v), !.rStep = Num(t[i + 2].s)], t, i + 3)
                                      ELSE Next2([o EXCEPT !.rFile = Stem(v)])
         [] s = "-restartInc" /\ more -> Next2([o EXCEPT !.rInc = m])
         [] s = "-eig" /\ more -> IF i + 2 <= Len(t) /\ t[i + 2].s = "verbose" THEN Cli([o EXCEPT !.eig = m], t, i + 3) ELSE Next2([o EXCEPT !.eig = m])
         [] s = "-nev" /\ more -> Next2([o EXCEPT !.nev = m])
         [] s = "-ncv" /\ more -> Next2([o EXCEPT !.ncv = m])
         [] s = "-shift" /\ more -> Next2([o EXCEPT !.shift = m])
         [] t[i].d -> Next1([o EXCEPT !.proj = @ \cup (CASE s = "-global" -> {1} [] s = "-dgl2" -> {5} [] s = "-cgl2" -> {6} [] s = "-scr" -> {8} [] s = "-vdsa" -> {2} [] s = "-residual" -> {0} [] OTHER -> {})])
         [] OTHER -> Next1(o)

(* Reading of a file: the elements are offered one by one, until one of them is rejected. *)
New(c) == [pc |-> "idle", todo |-> <<>>, ok |-> TRUE, opt |-> Cli(Default(c), c.cli, 1)]
Read(c, d) == LET x == Document(c)
                  l == IF x.ok THEN Offered(x.x.c, c.prio) ELSE <<>> IN
              [d EXCEPT !.pc = IF l = <<>> THEN "done" ELSE "parse", !.todo = TLCEval(l), !.ok = x.ok]
\* the options from the command-line are in force already while the discretization is created
Take(c, d, r) ==
  LET x == Head(d.todo)
      ok == r /\ ~Rejected(x)
      o == IF x.n = "geometry" \/ ~r THEN d.opt ELSE Apply(d.opt, x)
      p == IF x.n = "discretization" THEN Cli(o, c.cli, 1) ELSE o IN
  [d EXCEPT !.opt = TLCEval(p), !.todo = IF ok THEN Tail(@) ELSE <<>>, !.ok = ok, !.pc = IF ok /\ Len(d.todo) > 1 THEN "parse" ELSE "done"]
Finish(c, d) == [d EXCEPT !.pc = "idle", !.opt = Cli(@, c.cli, 1)]
=============================================================================
