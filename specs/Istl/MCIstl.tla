------------------------------- MODULE MCIstl -------------------------------
(* All histories of a small system (Sim = FALSE), or random histories of larger ones. g: what each slot has to solve for. *)
EXTENDS Istl, Json
CONSTANTS Sim, Depth
VARIABLES n, h, g
M3 == [nn |-> 3, elms |-> <<<<1, 2>>, <<2, 3>>>>, fixed |-> <<>>]
Meshes == { <<M3>>, <<[nn |-> 5, elms |-> <<<<1, 2, 3>>, <<3, 4>>, <<5, 4>>>>, fixed |-> <<1>>], M3>>,
            <<[nn |-> 8, elms |-> <<<<1, 2, 4, 5>>, <<2, 3, 5, 6>>, <<4, 5, 7, 8>>>>, fixed |-> <<2>>], [nn |-> 4, elms |-> <<<<1, 2>>, <<3, 2>>, <<4, 1>>>>, fixed |-> <<>>]>>,
            <<[nn |-> 6, elms |-> <<<<1, 6>>, <<2, 5>>, <<3, 4>>, <<6, 2>>, <<5, 3>>>>, fixed |-> <<>>]>> }
Cfg(ty, pc, re, mx, me, sl) == [type |-> ty, pc |-> pc, reset |-> re, maxits |-> mx, slots |-> sl, mesh |-> me]
Types == {"gmres", "bcgs", "cg", "minres"}
Resets == {"none", "all", "first", "2", "3"}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Configs == IF Sim THEN {Cfg("gmres", "ilu", "none", 500, <<M3>>, 1)}
           ELSE {Cfg(ty, "lu", re, 3, <<[nn |-> 3, elms |-> <<<<1, 2>>, <<2, 3>>>>, fixed |-> <<1>>]>>, 1) : ty \in {"gmres", "bcgs"}, re \in Resets}
Zeros == [s \in 1..c.slots |-> <<>>]
MCInit == c \in Configs /\ ms = [s \in 1..c.slots |-> Void] /\ g = Zeros /\ n = (IF Sim THEN -1 ELSE 0)
          /\ h = <<>>
\* fresh preconditioners matter when there are few iterations
Setup == /\ n = -1 /\ n' = 0
         /\ \E me \in Pick(Meshes), ty \in Pick(Types), re \in Pick(Resets), few \in Pick(1..3), sl \in Pick(1..2), pc \in Pick({"ilu", "lu", "jacobi", "sor", "ssor", "gs", "lu", "ilu"}) :
              /\ c' = IF few = 1 THEN Cfg(IF ty = "gmres" THEN "bcgs" ELSE ty, "lu", re, 3, me, sl) ELSE Cfg(ty, pc, re, 500, me, sl)
              /\ ms' = [s \in 1..sl |-> Void] /\ g' = [s \in 1..sl |-> <<>>]
         /\ UNCHANGED h
ElmMat(m, R) == LET D(i) == 1 + RandomElement(0..2) + Sum([j \in 1..m |-> IF j = i THEN 0 ELSE Abs(R[i][j])]) - (IF RandomElement(1..12) = 1 THEN RandomElement(1..3) ELSE 0)
                IN  TLCEval([z \in 1..(m * m) |-> LET i == (z - 1) \div m + 1   j == ((z - 1) % m) + 1 IN IF i = j THEN D(i) ELSE R[i][j]])
Rnd(m) == TLCEval([i \in 1..m |-> [j \in 1..m |-> RandomElement(-2..1)]])
Sym(m, R) == [i \in 1..m |-> [j \in 1..m |-> IF i < j THEN R[i][j] ELSE R[j][i]]]
Mats(m) == IF Sim THEN UNION {{ElmMat(m, IF sym THEN Sym(m, R) ELSE R) : R \in {Rnd(m)}} : sym \in {c.type \in {"cg", "minres"} \/ RandomElement(1..3) = 1}} ELSE {<<2, 1, 0, 3>>, <<1, 0, 0, 1>>}
TooBig(a) == \E i \in 1..Len(a.A) : Abs(a.A[i][i]) > 1000
RhsOf(a, x) == TLCEval([i \in 1..Len(a.cur) |-> Sum([j \in 1..Len(a.cur) |-> IF x[j] = 0 THEN 0 ELSE a.cur[i][j] * x[j]])])
Sols(a) == {TLCEval([j \in 1..Len(a.cur) |-> IF Abs(a.cur[j][j]) > 1000 THEN 0 ELSE IF Sim THEN RandomElement({0, 1, 2, -1, 3, -4}) ELSE j])}
Op(o, s, w) == h' = Append(h, <<o, s, w>>)
Keep == UNCHANGED c
Assembling(s, E) ==     \* all elements in E
  LET a == ms[s]
      RECURSIVE Go(_, _)
      Go(e, q) == IF e > Len(c.mesh[a.mesh].elms) THEN q
                  ELSE IF e \notin E THEN Go(e + 1, q)
                  ELSE CHOOSE r \in {Go(e + 1, [a |-> TLCEval(Add(q.a, e, y)), h |-> Append(q.h, <<"sam", s, <<a.mesh, e, y>>>>)]) : y \in Mats(Len(c.mesh[a.mesh].elms[e]))} : TRUE
  IN  Go(1, [a |-> a, h |-> h])
Act(op, s) ==
  LET a == ms[s] IN
  IF a.mesh = -1 THEN ms' = [ms EXCEPT ![s] = New] /\ g' = g /\ Op("new", s, <<>>)
  ELSE IF a.mesh = 0 \/ op = "iam"
  THEN \E m \in Pick({m \in 1..Len(c.mesh) : Len(a.flg) = 1 \/ Neq(m) = Len(a.flg)}) :
         ms' = [ms EXCEPT ![s] = InitAssembly(a, m)] /\ g' = [g EXCEPT ![s] = Zero(Neq(m))] /\ Op("iam", s, <<m>>)
  ELSE IF op = "new" THEN ms' = [ms EXCEPT ![s] = New] /\ g' = [g EXCEPT ![s] = <<>>] /\ Op("new", s, <<>>)
  ELSE IF op = "init" THEN ms' = [ms EXCEPT ![s] = Init0(a)] /\ g' = [g EXCEPT ![s] = Zero(Len(@))] /\ Op("init", s, <<>>)
  ELSE IF op = "inz" THEN ms' = [ms EXCEPT ![s] = Inz(a)] /\ g' = g /\ Op("inz", s, <<>>)
  ELSE IF op = "sam" THEN \E e \in Pick(1..Len(c.mesh[a.mesh].elms)) : \E x \in Mats(Len(c.mesh[a.mesh].elms[e])) :
                            LET y == TLCEval(x)   b == TLCEval(Add(a, e, y)) IN
                            ms' = [ms EXCEPT ![s] = b] /\ g' = [g EXCEPT ![s] = b.A] /\ Op("sam", s, <<a.mesh, e, y>>)
  ELSE IF op \in {"all", "part"} \/ (Sim /\ op = "sol" /\ a.cur = Zero(Len(a.cur)) /\ RandomElement(1..6) > 1)   \* a whole assembly
  THEN \E q \in {Assembling(s, IF op # "part" THEN 1..Len(c.mesh[a.mesh].elms) ELSE 1..(Len(c.mesh[a.mesh].elms) - 1))} : \E z \in {TLCEval(End(q.a))} :
       /\ ms' = [ms EXCEPT ![s] = z] /\ g' = [g EXCEPT ![s] = z.cur] /\ h' = Append(q.h, <<"end", s, <<>>>>)
  ELSE IF op = "end" THEN IF Unflagged(a) # {} /\ TooBig(a) THEN UNCHANGED <<ms, g, h>>
                          ELSE ms' = [ms EXCEPT ![s] = End(a)] /\ g' = [g EXCEPT ![s] = End(a).A] /\ Op("end", s, <<>>)
  ELSE IF op = "cpy" THEN \E b \in Pick(1..c.slots) : IF b = s THEN UNCHANGED <<ms, g, h>>
                          ELSE IF ms[b].mesh < 1 THEN UNCHANGED <<ms, g, h>>
                          ELSE ms' = [ms EXCEPT ![s] = [ms[b] EXCEPT !.n = 0, !.pre = NoPre]] /\ g' = [g EXCEPT ![s] = g[b]] /\ Op("cpy", s, <<b>>)
  ELSE \* sol
       LET p == TLCEval(Prepared(a)) IN
       \E b \in {RhsOf(a, x) : x \in Sols(a)}, mode \in Pick({0, 0, 1, 2} \cup (IF Sim THEN (IF RandomElement(1..6) = 1 THEN {3} ELSE {}) ELSE {})), ok \in (IF Must(p) THEN {TRUE} ELSE IF Sim THEN {TRUE} ELSE BOOLEAN) :
         /\ ms' = [ms EXCEPT ![s] = IF mode = 3 THEN [p EXCEPT !.pre = Unknown] ELSE Solved(p, ok)] /\ g' = g /\ Op("sol", s, <<mode, b>>)
Ops == {"iam", "init", "inz", "sam", "end", "sol"} \cup (IF Sim THEN {"cpy", "new", "all", "part"} ELSE {})
Often == {"sol", "sol2", "all", "renew"}
Work == /\ n >= 0 /\ n < Depth /\ n' = n + 1
        /\ \E s \in Pick(1..c.slots), z \in Pick(IF Sim THEN 1..10 ELSE {1}) :
             \E op \in (IF ~Sim THEN Ops ELSE IF z < 5 THEN {"sol"} ELSE IF z < 7 THEN {"all"} ELSE IF z < 8 THEN {"init"} ELSE Pick(Ops)) : Act(op, s)
        /\ Keep
Stop == n = Depth /\ n' = n + 1 /\ UNCHANGED <<ms, g, h, c>>
MCNext == Setup \/ Work \/ Stop
MCSpec == MCInit /\ [][MCNext]_<<c, ms, n, h, g>>
Hidden == <<c, ms, n, g>>
\* what is assembled is what is solved for once the assembly has ended; a renewed preconditioner belongs to it
Transferred == (h # <<>> /\ h[Len(h)][1] = "end") => ms[h[Len(h)][2]].cur = g[h[Len(h)][2]]
Assembled == \A s \in 1..Len(ms) : ms[s].mesh > 0 => ms[s].A = g[s]
Fresh == (h # <<>> /\ h[Len(h)][1] = "sol" /\ c.reset = "all") =>
           LET a == ms[h[Len(h)][2]] IN (a.n > 0 /\ a.pre.st = "set" => Prepared(a).pre.of = a.cur)
Emit == n = Depth + 1 => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
