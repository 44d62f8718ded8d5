------------------------------ MODULE Steppers ------------------------------
(***************************************************************************)
(* Integrators of first-order systems u' = f(t,u): explicit Runge-Kutta    *)
(* ("rk"), embedded Runge-Kutta with error control ("rke"), explicit and   *)
(* implicit linear multi-step methods ("ab", "am").                        *)
(*                                                                         *)
(* Every evaluation of f is a symbol, so a solution is a combination of    *)
(* one of the initial solutions and the symbols evaluated so far:          *)
(*   [h: the initial solution, bc: the prescribed value, k: coefficients]  *)
(* Time quantum: 1/1024.  Step sizes are dt * 104 quanta, such that the    *)
(* stages of all methods are at a whole number of quanta.  Coefficients    *)
(* are in units of 104 quanta / tab.D.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c, st
NoTab == [D |-> 1, p |-> 0, c |-> <<>>, A |-> <<>>, b |-> <<>>, bs |-> <<>>, tol |-> 0]
\* c: stage times in 1/104 of the step, A and b times D
Tab(m) ==
  CASE m = "euler" -> [D |-> 1, p |-> 1, c |-> <<0>>, A |-> << <<>> >>, b |-> <<1>>, bs |-> <<>>, tol |-> 0]
    [] m = "heun" -> [D |-> 2, p |-> 2, c |-> <<0, 104>>, A |-> << <<>>, <<2>> >>, b |-> <<1, 1>>, bs |-> <<>>, tol |-> 0]
    [] m = "rk3" -> [D |-> 6, p |-> 3, c |-> <<0, 52, 104>>, A |-> << <<>>, <<3>>, <<-6, 12>> >>, b |-> <<1, 4, 1>>, bs |-> <<>>, tol |-> 0]
    [] m = "rk4" -> [D |-> 6, p |-> 4, c |-> <<0, 52, 52, 104>>, A |-> << <<>>, <<3>>, <<0, 3>>, <<0, 0, 6>> >>, b |-> <<1, 2, 2, 1>>, bs |-> <<>>, tol |-> 0]
    [] m = "heuneuler" -> [D |-> 2, p |-> 1, c |-> <<0, 104>>, A |-> << <<>>, <<2>> >>, b |-> <<2, 0>>, bs |-> <<1, 1>>, tol |-> 0]
    [] m = "bs" -> [D |-> 72, p |-> 2, c |-> <<0, 52, 78, 104>>, A |-> << <<>>, <<36>>, <<0, 54>>, <<16, 24, 32>> >>,
                    b |-> <<21, 18, 24, 9>>, bs |-> <<16, 24, 32, 0>>, tol |-> 0]
    [] m = "fehlberg" -> [D |-> 10000000, p |-> 4, c |-> <<0, 26, 39, 96, 104, 52>>,
                          A |-> << <<>>, <<2500000>>, <<937500, 2812500>>, <<8793810, -32771962, 33208921>>, <<20324074, -80000000, 71734893, -2058967>>,
                                   <<-2962963, 20000000, -13816764, 4529727, -2750000>> >>,
                          b |-> <<1157407, 0, 5489279, 5353314, -2000000, 0>>, bs |-> <<1185185, 0, 5189864, 5061315, -1800000, 363636>>, tol |-> 10]
    [] OTHER -> [NoTab EXCEPT !.D = 720]
\* multi-step weights times 720: of the newest evaluation first
AB(p) == CASE p = 1 -> <<720>> [] p = 2 -> <<1080, -360>> [] p = 3 -> <<1380, -960, 300>> [] p = 4 -> <<1650, -1770, 1110, -270>>
           [] p = 5 -> <<1901, -2774, 2616, -1274, 251>>
AM(p) == CASE p = 1 -> <<720>> [] p = 2 -> <<360, 360>> [] p = 3 -> <<300, 480, -60>> [] p = 4 -> <<270, 570, -150, 30>>
Weights(kind, p) == IF kind = "ab" THEN AB(p) ELSE AM(p)
OrderOf(m) == CASE m \in {"ab1", "am1"} -> 1 [] m \in {"ab2", "am2"} -> 2 [] m \in {"ab3", "am3"} -> 3 [] m \in {"ab4", "am4"} -> 4 [] m = "ab5" -> 5
                [] OTHER -> Tab(m).p
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

----------------------------------------------------------------------------
(* Vectors *)
Rate == 2
G(t) == Rate * t + 3072          \* the prescribed value, times 1024
Tangent == 1024 * Rate
Pad(k, n) == TLCEval([i \in 1..Max2(n, Len(k)) |-> IF i <= Len(k) THEN k[i] ELSE 0])
RECURSIVE Trim(_)
Trim(k) == IF k # <<>> /\ k[Len(k)] = 0 THEN Trim(SubSeq(k, 1, Len(k) - 1)) ELSE k
AddAt(k, i, x) == [Pad(k, i) EXCEPT ![i] = @ + x]
\* the symbols of q with the weights w
RECURSIVE AddAll(_, _, _, _)
AddAll(k, q, w, dt) == IF w = <<>> THEN k ELSE AddAll(TLCEval(AddAt(k, Head(q), dt * Head(w))), Tail(q), Tail(w), dt)
Initial(j) == [h |-> j, bc |-> 0, k |-> <<>>]

----------------------------------------------------------------------------
(* The state: the stepper and the simulator it works on *)
Implicit == c.kind = "am"
Order == OrderOf(c.meth)
NSol == Order + 1
Start == [step |-> 0, t |-> 0, dt |-> c.dt, u |-> [Initial(1) EXCEPT !.bc = IF Implicit THEN 0 ELSE G(0)],
          prev |-> [j \in 1..NSol |-> [Initial(j + 1) EXCEPT !.bc = IF Implicit THEN 0 ELSE G(-(104 * c.dt * j))]],
          evs |-> <<>>, full |-> FALSE, asmd |-> FALSE, ne |-> 0, times |-> <<>>, p |-> 9]
NewOp(a, first) == IF c.lin THEN first /\ ~a.asmd ELSE TRUE
Eval(t, u, cv, new) == [t |-> t, bc |-> u.bc, cv |-> cv, h |-> u.h, k |-> Trim(u.k), new |-> new]

\* A new step: the previous solutions are shifted. In the first step, the multi-step methods evaluate the earlier solutions given as initial conditions.
Advance(a) ==
  LET t == a.t + 104 * a.dt
      older == <<a.u>> \o a.prev           \* before shifting
      n == IF a.step = 0 /\ c.kind \in {"ab", "am"} THEN Min2(Order, c.ics) - 1 ELSE 0        \* evaluations of earlier solutions
      full == IF a.step = 0 THEN c.ics >= Order ELSE a.full
      lag(j) == IF Implicit THEN j ELSE j + 1     \* the implicit methods need the current solution too
      ics == TLCEval([j \in 1..Max2(n, 0) |-> Eval(t - lag(j) * 104 * a.dt, older[lag(j)], IF Implicit THEN 0 ELSE Tangent, TRUE)])
  IN [ev |-> ics,
      s |-> [a EXCEPT !.step = @ + 1, !.t = t, !.prev = TLCEval([j \in 1..NSol |-> older[j]]), !.full = full,
                      !.evs = IF a.step = 0 THEN (IF full THEN TLCEval([j \in 1..Len(ics) |-> a.ne + j]) ELSE <<>>) ELSE @,
                      !.ne = @ + Len(ics), !.times = TLCEval(@ \o [j \in 1..Len(ics) |-> ics[j].t])]]

(* Runge-Kutta: all stages start from the solution at the beginning of the step *)
Stages(a, u, tab) ==
  TLCEval([i \in 1..Len(tab.b) |->
    LET t == a.t + a.dt * (tab.c[i] - 104) IN
    Eval(t, [u EXCEPT !.bc = G(t), !.k = Pad(@, a.ne) \o [j \in 1..(i - 1) |-> a.dt * tab.A[i][j]]], Tangent, NewOp(a, i = 1))])
Weighted(a, u, b) == [u EXCEPT !.bc = G(a.t), !.k = TLCEval(Trim(Pad(@, a.ne) \o [j \in 1..Len(b) |-> a.dt * b[j]]))]
Used(a, e) == [a EXCEPT !.ne = @ + Len(e), !.times = TLCEval(@ \o [j \in 1..Len(e) |-> e[j].t]), !.asmd = TRUE]
RungeKutta(a) ==
  LET tab == Tab(c.meth)   e == Stages(a, a.u, tab) IN
  [ok |-> TRUE, ev |-> e, err |-> <<>>, s |-> [Used(a, e) EXCEPT !.u = Weighted(a, a.u, tab.b)]]

(* Embedded methods. ests: base-2 logarithms of estimate/tolerance of successive attempts, Exact: no error *)
Exact == -99
RECURSIVE Embedded(_, _, _, _)
Embedded(a, ests, ev, err) ==
  LET tab == Tab(c.meth)
      e == Stages(a, a.u, tab)
      b == Used(a, e)
      est == IF ests = <<>> THEN Exact ELSE Head(ests)
      diff == TLCEval([Weighted(a, Initial(0), [j \in 1..Len(tab.b) |-> tab.bs[j] - tab.b[j]]) EXCEPT !.bc = 0])
      sol == [b EXCEPT !.u = Weighted(a, a.u, tab.b)]
      cut == Max2(a.dt \div 2, c.dtmin)
  IN IF est > 0
     THEN IF a.dt <= c.dtmin THEN [ok |-> FALSE, ev |-> ev \o e, err |-> Append(err, diff), s |-> sol]
          ELSE Embedded([b EXCEPT !.dt = cut, !.t = @ + 104 * (cut - a.dt)], Tail(ests), ev \o e, Append(err, diff))
     ELSE [ok |-> TRUE, ev |-> ev \o e, err |-> Append(err, diff),
           s |-> [sol EXCEPT !.dt = IF est = Exact THEN @ ELSE @ * 2^((-est) \div (tab.p + 1))]]

(* Linear multi-step methods: the order is limited by the evaluations there are *)
UsedOrder(a, have) == Min2(IF a.full THEN Order ELSE Min2(Order, a.step), have)
MultiStep(a) ==
  IF ~Implicit
  THEN LET u == a.prev[1]   e == Eval(a.t - 104 * a.dt, u, Tangent, NewOp(a, TRUE))
           q == <<a.ne + 1>> \o a.evs
           p == UsedOrder(a, Len(q))
       IN [ok |-> TRUE, ev |-> <<e>>, err |-> <<>>,
           s |-> [Used(a, <<e>>) EXCEPT !.u = [u EXCEPT !.bc = G(a.t), !.k = TLCEval(Trim(AddAll(u.k, q, AB(p), a.dt)))],
                                        !.evs = TLCEval(SubSeq(q, 1, Min2(Len(q), Order))), !.p = Min2(@, p)]]
  ELSE LET q == <<a.ne + 1>> \o a.evs
           p == UsedOrder(a, Len(q))
           u == [a.u EXCEPT !.k = TLCEval(Trim(AddAll(a.u.k, q, AM(p), a.dt)))]
           e == Eval(a.t, u, 0, FALSE)
       IN [ok |-> TRUE, ev |-> <<e>>, err |-> <<>>,
           s |-> [Used(a, <<e>>) EXCEPT !.u = u, !.evs = TLCEval(SubSeq(q, 1, Min2(Len(q), Order))), !.p = Min2(@, p)]]
Solve(a, ests) == CASE c.kind = "rk" -> RungeKutta(a) [] c.kind = "rke" -> Embedded(a, ests, <<>>, <<>>) [] OTHER -> MultiStep(a)
\* a new stepper continues from the saved state: the operator has to be assembled again, and earlier evaluations are gone
Restart(a) == [a EXCEPT !.asmd = FALSE, !.evs = <<>>, !.full = FALSE]

----------------------------------------------------------------------------
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

----------------------------------------------------------------------------
(* Backward differences: coefficients of u(t), u(t-dt), u(t-dt-dtn), .. of the approximation of the time derivative of the given degree.
   Degree 1: times dtn*(dt+dtn). Degree 2 (constant steps, starting from rest): times two. *)
Capped(order) == Min2(order, 2)
Bdf1(order, step, dt, dtn) ==
  LET S == dtn * (dt + dtn) IN
  IF order = 0 THEN <<S>> ELSE IF step < 2 \/ order = 1 THEN <<S, -S>> ELSE <<dtn * (dtn + 2 * dt), -((dt + dtn) * (dt + dtn)), dt * dt>>
Bdf2(order, step) == IF step < 2 THEN <<4, -4>> ELSE IF order = 1 THEN <<2, -4, 2>> ELSE IF step = 2 THEN <<5, -16, 11>> ELSE <<4, -10, 8, -2>>
BdfOrder(degree, order, step) == IF order = 0 THEN 0 ELSE IF step < degree + 1 THEN 1 ELSE Capped(order)
Extrapolated(order, step, v) == IF step > 1 /\ Capped(order) = 2 THEN 2 * v[1] - v[2] ELSE v[1]
\* Newton matrix and right-hand-side vector of an element, times two; dt = 1/h
NewtonMatrix(cf, h, M, K) == TLCEval([i \in 1..Len(M) |-> cf[1] * h * h * M[i] + 2 * K[i]])
RhsVector(cf, h, M, b, v) == TLCEval([i \in 1..Len(b) |-> 2 * b[i] - h * h * Sum([k \in 1..Len(cf) |-> cf[k] * Sum([j \in 1..Len(b) |-> M[(i - 1) * Len(b) + j] * v[k][j]])])])
\* exact for polynomials: first order in the first step, second order later, also when the step size changes
ASSUME \A dt \in 1..4, dtn \in 1..4 :
  LET S == dtn * (dt + dtn)   x == <<0, -dt, -(dt + dtn)>>
      M(f, m) == Sum([i \in 1..Len(f) |-> f[i] * Pow(x[i], m)])
  IN  /\ \A f \in {Bdf1(1, 5, dt, dtn), Bdf1(2, 1, dt, dtn), Bdf1(2, 2, dt, dtn)} : M(f, 0) = 0 /\ M(f, 1) = dt * S
      /\ M(Bdf1(2, 2, dt, dtn), 2) = 0
ASSUME LET M(f, m, o) == Sum([i \in 1..Len(f) |-> f[i] * Pow(o - i, m)]) IN
       /\ M(Bdf2(2, 1), 0, 2) = 0 /\ M(Bdf2(2, 1), 2, 2) = 4                                            \* u'(0) = 0
       /\ M(Bdf2(2, 2), 0, 3) = 0 /\ M(Bdf2(2, 2), 2, 3) = 4 /\ M(Bdf2(2, 2), 3, 3) = 24
       /\ \A f \in {Bdf2(1, 2), Bdf2(2, 3)} : M(f, 0, 1) = 0 /\ M(f, 1, 1) = 0 /\ M(f, 2, 1) = 4
       /\ M(Bdf2(2, 3), 3, 1) = 0
\* names of the methods: order and number of steps
Names == [be |-> <<1, 1>>, bdf2 |-> <<2, 2>>, cn |-> <<2, 1>>, euler |-> <<1, 1>>, heun |-> <<2, 1>>, rk3 |-> <<3, 1>>, rk4 |-> <<4, 1>>,
          ab1 |-> <<1, 1>>, ab2 |-> <<2, 2>>, ab3 |-> <<3, 3>>, ab4 |-> <<4, 4>>, ab5 |-> <<5, 5>>]
----------------------------------------------------------------------------
(* Tableaux: consistency and the order conditions *)
Row(tab, i) == Sum(tab.A[i])
Cond(tab, b, p) ==
  LET n == Len(b)   D == tab.D
      a(i, j) == IF j < i THEN tab.A[i][j] ELSE 0
      cc(i) == Row(tab, i)             \* times D
      S1(F(_)) == Sum([i \in 1..n |-> F(i)])
      ac(i) == Sum([j \in 1..n |-> a(i, j) * cc(j)])     \* times D^2
      acc(i) == Sum([j \in 1..n |-> a(i, j) * cc(j) * cc(j)])
      aac(i) == Sum([j \in 1..n |-> a(i, j) * ac(j)])
      f1(i) == b[i]   f2(i) == b[i] * cc(i)   f3(i) == b[i] * cc(i) * cc(i)   f4(i) == b[i] * ac(i)
      f5(i) == b[i] * cc(i) * cc(i) * cc(i)   f6(i) == b[i] * cc(i) * ac(i)   f7(i) == b[i] * acc(i)   f8(i) == b[i] * aac(i)
  IN /\ S1(f1) = D
     /\ p >= 2 => 2 * S1(f2) = D * D
     /\ p >= 3 => 3 * S1(f3) = D * D * D /\ 6 * S1(f4) = D * D * D
     /\ p >= 4 => 4 * S1(f5) = D * D * D * D /\ 8 * S1(f6) = D * D * D * D /\ 12 * S1(f7) = D * D * D * D /\ 24 * S1(f8) = D * D * D * D
Rows(tab) == \A i \in 1..Len(tab.c) : LET x == 104 * (Row(tab, i)) - tab.c[i] * tab.D IN IF tab.tol = 0 THEN x = 0 ELSE x \in -300..300
ASSUME \A m \in {"euler", "heun", "rk3", "rk4", "heuneuler", "bs"} : Rows(Tab(m)) /\ Cond(Tab(m), Tab(m).b, Tab(m).p)
ASSUME \A m \in {"heuneuler", "bs"} : Cond(Tab(m), Tab(m).bs, Tab(m).p + 1)
ASSUME Sum(Tab("fehlberg").b) \in 9999997..10000003 /\ Sum(Tab("fehlberg").bs) \in 9999997..10000003
       /\ \A i \in 1..6 : Row(Tab("fehlberg"), i) * 13 - (Tab("fehlberg").c[i] * 1250000) \in -50..50
\* multi-step methods of order p integrate polynomials of degree < p exactly: newest evaluation at 0 (explicit) or 1 (implicit)
ASSUME \A p \in 1..5 : \A m \in 0..(p - 1) : (m + 1) * Sum([j \in 1..p |-> AB(p)[j] * Pow(1 - j, m)]) = 720
ASSUME \A p \in 1..4 : \A m \in 0..(p - 1) : (m + 1) * Sum([j \in 1..p |-> AM(p)[j] * Pow(2 - j, m)]) = 720
=============================================================================
