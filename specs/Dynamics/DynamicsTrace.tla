--------------------------- MODULE DynamicsTrace ---------------------------
(* Recorded time steps.  The specification keeps the last accepted state and judges the new ones against it. *)
EXTENDS Dynamics, VF
VARIABLES acc,    \* the accepted state
          hist,   \* what was left of its inertia: Rest, or nothing before the first step
          last,   \* the last load
          same,   \* the size of all steps so far, 0 when they differ
          t, i
vars == <<acc, hist, last, same, t, i>>
C == Traces[t].c
Ev == Traces[t].s[i + 1]
Same2(what, obs, spec) == IF obs = spec THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, spec>>)
Holds(what, obs, ok, info) == IF ok THEN TRUE ELSE Mismatch(t, i + 1, <<what, obs>>, <<what, info>>)
Big(s) == \E k \in 1..3 : \E j \in 1..2 : Abs(s[k][j]) > 20000000 \/ (C.k3 # 0 /\ k = 1 /\ Abs(s[k][j]) > 1000000)
F5(f) == <<f[1] * 10, f[2] * 10>>
Max(x, y) == IF x < y THEN y ELSE x
MaxV(s) == Max(Max(Abs(s[1][1]), Abs(s[1][2])), Max(Max(Abs(s[2][1]), Abs(s[2][2])), Max(Abs(s[3][1]), Abs(s[3][2]))))
Entries(A) == Abs(A[1]) + 2 * Abs(A[2]) + Abs(A[3])
\* rounding of the states (half a unit) and of the products
Tol == 20
TolF == 40 + (3 * (Entries(C.M) + Entries(C.C) + Entries(C.K))) \div 10000 + (IF C.k3 = 0 THEN 0 ELSE 400)
Inertial == C.scheme = "H" \/ (C.scheme = "L" /\ C.inert)
\* the tangents are exact, such that one correction is enough
Exact(dt) == C.k3 = 0 /\ (C.nupd > 0 \/ same = 0 \/ same = dt)

TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ Traces[t].s[1].op = "begin"
         /\ Same2("set-up", Traces[t].s[1].ok, TRUE)
         /\ acc = <<Zero, Zero, Zero>> /\ hist = Zero /\ last = Zero /\ same = 0
Init(e) == /\ Same2("start", e.ok, TRUE)
           /\ (e.acc => Holds("initial acceleration", e.s[3], Start(C, e.s[3], F5(e.f), TolF), "equilibrium"))
           /\ acc' = e.s /\ last' = F5(e.f) /\ UNCHANGED <<hist, same>>
\* a state where the forces of the new step were evaluated
Assembled(m, dt, x, n) ==
  LET s == x.s IN
  CASE C.scheme = "N" -> /\ Holds("trial state", s, Kinematics(m, dt, acc, s, Tol), acc)
                         /\ (x.it = 0 /\ n = 1 => CASE C.pred = "d" -> Holds("predicted displacement", s[1], Near(s[1], acc[1], 1), acc[1])
                                                    [] C.pred = "v" -> Holds("predicted velocity", s[2], Near(s[2], acc[2], 1), acc[2])
                                                    [] OTHER -> Holds("predicted acceleration", s[3], s[3] = Zero, Zero))
    [] C.scheme \in {"L", "H"} /\ x.it > 0 -> Holds("trial state", s, Kinematics(m, dt, acc, s, Tol), acc)
    [] C.scheme = "H" -> Holds("predicted state", s, s = acc, acc)
    [] C.scheme = "L" -> Holds("predicted displacement", s[1], (n = 1 => Near(s[1], acc[1], 1)), acc[1])
    [] OTHER -> Holds("intermediate state", s, Between(m, dt, acc, s, 3 * Tol), acc)
Sub1(m, dt, x, n) ==
  LET s == x.s   f == F5(x.f) IN
  /\ \A k \in 1..Len(x.asm) : Big(x.asm[k].s) \/ Assembled(m, dt, x.asm[k], n)
  /\ (C.k3 = 0 /\ Exact(dt) => Same2("status", x.st, "conv"))
  /\ (C.k3 = 0 /\ Exact(dt) /\ x.st = "conv" => Holds("iterations", x.iter, x.iter <= (IF C.scheme = "H" \/ (C.scheme = "L" /\ n > 1) THEN 2 ELSE 1), "one correction, or two if the prediction is bad"))
  /\ (x.st = "conv" /\ ~Big(s) => /\ Holds("update", s, Kinematics(m, dt, acc, s, Tol), acc)
                                  /\ Holds("balance", <<s, Residual(m, C, acc, s, f, hist)>>, Balance(m, C, acc, s, f, hist, TolF), "zero residual"))
Step(e) ==
  LET m == Method(C)   n == Len(e.sub) IN
  /\ Same2("advance", e.adv, TRUE)
  /\ \A k \in 1..n : Sub1(m, e.dt, e.sub[k], k)
  /\ LET x == e.sub[n] IN
     /\ Same2("step pending", e.first, x.st # "conv" /\ \A k \in 1..i : Traces[t].s[k].op # "stp")
     /\ (x.st = "conv" /\ "prev" \in DOMAIN e => Same2("previous state", e.prev, acc))
     /\ acc' = x.s /\ last' = F5(x.f)
     /\ hist' = IF Inertial /\ ~Big(x.s) THEN TLCEval(Rest(C, x.s, F5(x.f))) ELSE Zero
     /\ same' = IF same = 0 THEN e.dt ELSE IF same = e.dt THEN e.dt ELSE 99999999
\* the run is continued by another process, from the restart data only
Restart(e) == /\ Same2("restart", e.ok, TRUE) /\ Same2("restored state", e.s, acc) /\ UNCHANGED <<acc, hist, last>> /\ same' = 0
TNext == /\ i < Len(Traces[t].s) /\ t' = t
         /\ LET e == Ev IN
            IF e.op = "stp" /\ (Big(acc) \/ (e.sub # <<>> /\ Big(e.sub[Len(e.sub)].s)))
            THEN UNCHANGED <<acc, hist, last, same>> /\ i' = Len(Traces[t].s)   \* out of the range of the specification
            ELSE /\ i' = i + 1
                 /\ CASE e.op = "ini" -> Init(e) [] e.op = "stp" -> Step(e) [] e.op = "rst" -> Restart(e) [] OTHER -> Same2("event", e.op, "a step")
         /\ (i' = Len(Traces[t].s) => Done(t))
TSpec == TInit /\ [][TNext]_vars
=============================================================================
