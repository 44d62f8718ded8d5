------------------------------- MODULE Solver -------------------------------
(* The equilibrium iterations of the nonlinear and the dynamic solution drivers.

   Magnitudes are powers of two, given by their exponent: ZERO, INF and NAN are the values which have none.
   A script tells what the assembled residual force and tangent will be, one entry for each assembly:
   [d |-> loaded dof, e |-> exponent of the force, sg |-> its sign, k |-> exponent of the stiffness (NONE: a singular tangent)].
   Displacements are in units of 2^-12.

   The state of a solver: d (displacements), first (no step is completed yet), ref (reference norm),
   tol/scale/prev/pos/ninc (convergence monitor), alpha4 (step length in quarters), K (exponent of the present tangent), iter,
   l (the last increment).
   While it works also: r (residual force), ev (what it has done), used (script entries consumed), fk (the event which fails). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ZERO == -99
INF == 98
NAN == 99
NONE == -99
Special(x) == x \in {ZERO, INF, NAN}
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Linear(c) == c.kind = "N" /\ c.norm \in {"none", "upt"}   \* upt: with a new tangent in each step
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Less(a, b) == a # NAN /\ b # NAN /\ a < b
LessEq(a, b) == a # NAN /\ b # NAN /\ a <= b
Over(a, s) == IF Special(a) THEN a ELSE a - s

New == [d |-> <<0, 0>>, first |-> TRUE, ref |-> ZERO, tol |-> ZERO, scale |-> 0, prev |-> ZERO, pos |-> TRUE, ninc |-> 0, alpha4 |-> 4, K |-> NONE, iter |-> 0, l |-> [d |-> 1, e |-> ZERO, sg |-> 1]]
Work(st, script, fk) == st @@ [r |-> [d |-> 1, e |-> ZERO, sg |-> 1], ev |-> <<>>, used |-> 0, script |-> script, fk |-> fk,
                               ok |-> TRUE, newT |-> TRUE, poor |-> FALSE, out |-> "", norm |-> ZERO, look |-> <<0, 0>>, vague |-> FALSE]
Rest(w) == [x \in DOMAIN New |-> w[x]]

\* something which may go wrong: only the event number fk of the step does
Emit(w, e) == [w EXCEPT !.ev = Append(@, e), !.ok = @ /\ Len(w.ev) + 1 # w.fk]
Entry(w) == w.script[IF w.used + 1 > Len(w.script) THEN Len(w.script) ELSE w.used + 1]

Inc(l, a4) == IF l.e = ZERO THEN 0 ELSE (l.sg * P2(12 + l.e) * a4) \div 4
Lost == 1999999999   \* not a number
Moved(d, l, a4) == IF a4 = 0 THEN d ELSE IF l.e \in {NAN, INF} \/ Lost \in {d[1], d[2]} THEN <<Lost, Lost>> ELSE [d EXCEPT ![l.d] = @ + Inc(l, a4)]

Dirichlet(w, prescribed) == Emit(w, <<"dir", prescribed>>)
Assemble(w, newT, poor, mode) ==
  LET n == Entry(w)
      e == Emit(w, <<"asm", newT, poor, IF newT THEN mode ELSE "rhs", w.iter, w.d>>)
  IN IF ~e.ok THEN e
     ELSE [e EXCEPT !.used = @ + 1, !.r = [d |-> n.d, e |-> n.e, sg |-> n.sg], !.K = IF newT THEN n.k ELSE @]
\* the linear system of equations
Solve(w) == IF w.K = NONE THEN [w EXCEPT !.ok = FALSE]
            ELSE [w EXCEPT !.l = [d |-> w.r.d, e |-> IF w.r.e = INF THEN NAN ELSE Over(w.r.e, w.K), sg |-> w.r.sg]]
Energy(w) == IF w.r.d # w.l.d \/ w.r.e = ZERO \/ w.l.e = ZERO THEN ZERO ELSE IF w.r.e = NAN \/ w.l.e = NAN THEN NAN ELSE w.r.e + w.l.e
EnergySign(w) == w.r.sg * w.l.sg

(* The monitor: is the present iteration the last one? *)
Check(c, w, sub) ==
  IF Linear(c) THEN [w EXCEPT !.out = "conv"]
  ELSE LET en == IF w.r.d # w.l.d /\ (w.r.e = NAN \/ w.l.e = NAN) THEN NAN ELSE Energy(w)
           raw == CASE c.norm = "ene" -> en [] c.norm = "res" -> w.r.e [] c.norm = "dis" -> w.l.e
           pos == c.norm # "ene" \/ EnergySign(w) = 1
           ref == IF raw \in {INF, NAN} THEN w.ref ELSE IF (sub % 2 = 1 /\ c.all) \/ w.ref < raw THEN raw ELSE w.ref
           rel == ref # ZERO /\ ref - c.rt > c.at
           a == IF w.iter > 0 THEN w ELSE [w EXCEPT !.ref = ref, !.tol = IF rel THEN 0 - c.rt ELSE c.at, !.scale = IF rel THEN ref ELSE 0, !.ninc = 0]
           norm == Over(raw, a.scale)
           b == IF w.iter > 0 THEN a ELSE [a EXCEPT !.prev = norm, !.pos = pos]
           slow == c.kind = "N" /\ b.iter > 1 /\ b.pos /\ b.prev \notin {ZERO, NAN, INF} /\ norm \notin {ZERO, NAN} /\ (norm = INF \/ norm - b.prev >= 0 - 3)
           grows == ~LessEq(norm, b.prev)
           out == IF Less(norm, b.tol) /\ (b.iter > 0 \/ c.all) THEN "conv"
                  ELSE IF w.l.e = NAN THEN "div"
                  ELSE IF grows /\ (b.ninc + 1 > c.maxIncr \/ Less(c.dl, norm)) THEN "div"
                  ELSE IF slow THEN "slow" ELSE "ok"
       IN IF w.iter = 0 /\ w.l.e = ZERO THEN [w EXCEPT !.out = "conv", !.norm = ZERO]
          ELSE [b EXCEPT !.out = out, !.prev = norm, !.pos = pos, !.norm = norm,
                         !.ninc = IF out = "conv" \/ w.l.e = NAN THEN @ ELSE IF grows THEN @ + 1 ELSE 0]

Update(c, w) ==
  LET d == IF Linear(c) THEN Moved(<<0, 0>>, w.l, 4)
           ELSE IF c.kind = "N" THEN Moved(w.d, w.l, w.alpha4) ELSE Moved(w.d, w.l, 4)
  IN Emit([w EXCEPT !.d = d], <<"upd", d>>)

(* Line search: looks for a step length c, within [1/2, 3/2] of the increment, for which the increment does
   (almost) no work. All values in quarters. On return, alpha4 is what remains to be added. *)
Vague == 0 - 1   \* not representable: the specification says nothing more
\* s0/(s0-sk) times ck, limited to [1/2,3/2]; the work sk is zero or sk/s0 = sg*2^j
NextLength(ck, same, j, sg0) ==
  LET lo == 2
      hi == 6
      fac == IF same = 0 THEN <<1, 1>>
             ELSE IF same = 1 THEN IF j < 0 THEN <<P2(0 - j), P2(0 - j) - 1>> ELSE IF j = 0 THEN <<sg0, 0>> ELSE <<0 - 1, P2(j) - 1>>
             ELSE IF j < 0 THEN <<P2(0 - j), P2(0 - j) + 1>> ELSE <<1, 1 + P2(j)>>
  IN IF fac[2] = 0 THEN IF fac[1] > 0 THEN hi ELSE lo
     ELSE IF ck * fac[1] > hi * fac[2] THEN hi ELSE IF ck * fac[1] < lo * fac[2] THEN lo
     ELSE IF fac[2] \in {1, 2, 4, 8} /\ (ck * fac[1]) % fac[2] = 0 THEN (ck * fac[1]) \div fac[2] ELSE Vague

RECURSIVE Search(_, _, _, _, _, _, _)
Search(c, w, n, ck, cp, smin, cmin) ==
  IF n > 10 THEN [w EXCEPT !.alpha4 = cmin - cp]
  ELSE LET u == Update(c, [w EXCEPT !.alpha4 = ck - cp]) IN
  IF ~u.ok THEN u ELSE
  LET a == Assemble(u, FALSE, FALSE, "rhs") IN
  IF ~a.ok THEN a ELSE
  LET s0 == w.look[1]
      sg0 == w.look[2]
      sk == Energy(a)
      same == IF sk = ZERO THEN 0 ELSE sg0 * EnergySign(a)
      done == sk = ZERO \/ sk - s0 < 0 - c.eta
      min == IF sk < smin THEN sk ELSE smin
      cm == IF sk < smin THEN ck ELSE cmin
      nx == NextLength(ck, same, IF same = 0 THEN 0 ELSE sk - s0, sg0)
  IN IF done THEN [a EXCEPT !.alpha4 = 0]
     ELSE IF nx = Vague THEN [a EXCEPT !.ok = FALSE, !.vague = TRUE]
     ELSE IF Abs(nx - ck) * 2 * P2(c.eta) < Abs(nx + ck) THEN [a EXCEPT !.alpha4 = 0]
     ELSE Search(c, a, n + 1, nx, ck, min, cm)
LineSearch(c, w) ==
  IF c.eta = NONE \/ c.kind # "N" THEN w
  ELSE IF Energy(w) = ZERO THEN [w EXCEPT !.alpha4 = 4]
  ELSE Search(c, [w EXCEPT !.look = <<Energy(w), EnergySign(w)>>], 1, 4, 0, Energy(w), 4)

Fails(w) == [w EXCEPT !.out = "fail"]
Mode(c) == IF c.kind = "N" THEN "stat" ELSE "dyn"

(* One time/load step. sub: 1: the first, 2: the last of some sub-iterations, 3: both, 0: neither. diverged: what the integrand says when an assembly fails *)
RECURSIVE Iterate(_, _, _, _)
Iterate(c, w, sub, diverged) ==
  IF w.iter > c.maxit THEN [w EXCEPT !.out = "div"]
  ELSE LET m == TLCEval(Check(c, w, sub)) IN
  IF m.out = "div" THEN m
  ELSE IF m.out = "conv" THEN LET u == Update(c, m) IN IF ~u.ok THEN Fails(u) ELSE [u EXCEPT !.first = @ /\ (c.kind # "N" /\ sub < 2)]
  ELSE LET slow == m.out = "slow"
           u == Update(c, [m EXCEPT !.iter = @ + 1, !.newT = @ /\ m.iter + 1 <= c.nupdat]) IN
  IF ~u.ok THEN Fails(u)
  ELSE LET b == IF sub % 2 = 1 /\ u.iter = 1 THEN Dirichlet(u, FALSE) ELSE u IN
  IF ~b.ok THEN Fails(b)
  ELSE LET a == TLCEval(Assemble(b, b.newT, slow, Mode(c))) IN
  IF ~a.ok THEN [a EXCEPT !.out = IF diverged /\ c.kind = "N" THEN "div" ELSE "fail"]
  ELSE LET s == TLCEval(Solve(a)) IN
  IF ~s.ok THEN Fails(s)
  ELSE LET f == TLCEval(LineSearch(c, s)) IN
  IF ~f.ok THEN Fails(f) ELSE Iterate(c, f, sub, diverged)

SolveStep(c, st, sub, script, fk, diverged) ==
  LET i == [Work(st, script, fk) EXCEPT !.iter = 0, !.alpha4 = 4, !.d = IF c.kind = "N" /\ c.ini THEN <<0, 0>> ELSE @,
                                        !.newT = IF c.kind = "N" THEN st.first \/ c.norm # "none" ELSE st.first \/ c.nupdat > 0]
      b == IF sub % 2 = 1 THEN Dirichlet(i, TRUE) ELSE i
  IN IF ~b.ok THEN Fails(b)
     ELSE LET a == TLCEval(Assemble(b, b.newT, FALSE, Mode(c))) IN
     IF ~a.ok THEN [a EXCEPT !.out = IF diverged /\ c.kind = "N" THEN "div" ELSE "fail"]
     ELSE LET s == TLCEval(Solve(a)) IN IF ~s.ok THEN Fails(s) ELSE Iterate(c, s, sub, diverged)

(* One iteration at a time, on request *)
SolveIteration(c, st, iter, sub, script, fk) ==
  LET i == [Work(st, script, fk) EXCEPT !.iter = iter]
      b == IF iter = 0 THEN Dirichlet(i, TRUE) ELSE IF iter = 1 THEN Dirichlet(i, FALSE) ELSE i
      p == IF b.ok /\ c.kind # "N" /\ iter > 0 THEN Update(c, b) ELSE b
  IN IF ~p.ok THEN Fails(p)
     ELSE LET a == TLCEval(Assemble(p, iter <= c.nupdat, FALSE, Mode(c))) IN
     IF ~a.ok THEN Fails(a)
     ELSE LET s == TLCEval(Solve(a)) IN
     IF ~s.ok THEN Fails(s)
     ELSE LET f == TLCEval(LineSearch(c, s))
              u == IF f.ok /\ c.kind = "N" THEN Update(c, f) ELSE f
          IN IF ~u.ok THEN Fails(u) ELSE Check(c, u, sub)
=============================================================================
