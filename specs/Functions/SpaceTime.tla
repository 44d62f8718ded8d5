------------------------------ MODULE SpaceTime ------------------------------
(* Functions of time and space: f(X,t) = A g(X) h(t).  Arguments are in quarters, values are rationals n/2^e.
   The value is prescribed for each argument alone; at jumps and kinks, any of the one-sided values (slopes) is allowed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow(_, _), Norm(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Norm(n, e) == IF n = 0 THEN <<0, 0>> ELSE IF e > 0 /\ n % 2 = 0 THEN Norm(n \div 2, e - 1) ELSE <<n, e>>
MaxI(a, b) == IF a > b THEN a ELSE b
Whole(n) == <<n, 0>>
Zero == Whole(0)
Qtr(x) == Norm(x, 2)
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE Norm(a[1] * b[1], a[2] + b[2])
Add(a, b) == LET e == MaxI(a[2], b[2]) IN Norm(a[1] * Pow(2, e - a[2]) + b[1] * Pow(2, e - b[2]), e)
Sub(a, b) == Add(a, <<-b[1], b[2]>>)
Lt(a, b) == Sub(a, b)[1] < 0
\* the reciprocal of (+/-) a power of two quarters
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow(n) == n > 0 /\ Pow(2, Log2(n)) = n
Recip(x) == LET s == IF x < 0 THEN -1 ELSE 1 l == Log2(s * x) IN IF l >= 2 THEN <<s, l - 2>> ELSE <<s * Pow(2, 2 - l), 0>>
Prod(S, T) == {Mul(a, b) : a \in S, b \in T}
Plus(S, T) == {Add(a, b) : a \in S, b \in T}

(* ---- piece-wise linear functions; p is a sequence of points <<x, v>> in increasing order ---- *)
At(p, x) == {k \in 1..Len(p) : p[k][1] = x}
Before(p, x) == {k \in 1..Len(p) : p[k][1] < x}
Slope(p, k) == Mul(Whole(p[k + 1][2] - p[k][2]), Recip(p[k + 1][1] - p[k][1]))
TabVal(p, x) == LET n == Cardinality(Before(p, x)) IN
  IF At(p, x) # {} THEN {Whole(p[k][2]) : k \in At(p, x)}
  ELSE IF n = 0 THEN {Whole(p[1][2])}
  ELSE IF n = Len(p) THEN {Whole(p[n][2])}
  ELSE {Add(Whole(p[n][2]), Mul(Slope(p, n), Qtr(x - p[n][1])))}
\* slope of the segment between point n and the next one (zero before the first and beyond the last)
Seg(p, n) == IF n = 0 \/ n = Len(p) THEN Zero ELSE Slope(p, n)
TabDer(p, x) == LET n == Cardinality(Before(p, x)) m == n + Cardinality(At(p, x)) IN {Seg(p, n), Seg(p, m)}

(* ---- scalar functions of time ---- *)
Col(p) == [k \in 1..Len(p) |-> <<p[k][1], p[k][2]>>]
\* a polynomial is a sequence of monomials <<c, ex, ey, ez, et>>
RECURSIVE PowQ(_, _), Poly(_, _)
PowQ(x, n) == IF n = 0 THEN Whole(1) ELSE Mul(Qtr(x), PowQ(x, n - 1))
Mono(m, X) == Mul(Whole(m[1]), Mul(Mul(PowQ(X[1], m[2]), PowQ(X[2], m[3])), Mul(PowQ(X[3], m[4]), PowQ(X[4], m[5]))))
Poly(p, X) == IF p = <<>> THEN Zero ELSE Add(Mono(Head(p), X), Poly(Tail(p), X))
DMono(m, d) == [m EXCEPT ![1] = m[1] * m[d + 1], ![d + 1] = MaxI(0, m[d + 1] - 1)]
DPoly(p, d) == [k \in 1..Len(p) |-> DMono(p[k], d)]
T4(t) == <<0, 0, 0, t>>
\* the sine of a number of quarter-turns
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Ti(h, t) ==
  CASE h.k = "none"  -> {Whole(1)}
    [] h.k = "const" -> {Whole(h.v)}
    [] h.k = "lin"   -> {Mul(Whole(h.v), Qtr(t))}
    [] h.k = "tab"   -> Prod({Whole(h.v)}, TabVal(Col(h.p), t))
    [] h.k = "ramp"  -> {IF t < h.x THEN Mul(Whole(h.v), Mul(Qtr(t), Recip(h.x))) ELSE Whole(h.v)}
    [] h.k = "dirac" -> {IF t = h.x THEN Whole(h.v) ELSE Zero}
    [] h.k = "step"  -> {IF t >= h.x THEN Whole(h.v) ELSE Zero}
    [] h.k = "sin"   -> {Whole(h.v * Sin4(h.n * t + h.m))}
    [] h.k = "expr"  -> {Poly(h.p, T4(t))}
\* a ramp ending at or before the origin is not a ramp
RampOK(h) == h.x > 0
TiVal(h, t) == IF h.k = "ramp" /\ ~RampOK(h) THEN {Whole(h.v)} ELSE Ti(h, t)
TiDer(h, t) ==
  CASE h.k = "lin"  -> {Whole(h.v)}
    [] h.k = "tab"  -> Prod({Whole(h.v)}, TabDer(Col(h.p), t))
    [] h.k = "ramp" -> LET s == Mul(Whole(h.v), Recip(h.x)) IN
                       IF ~RampOK(h) THEN {Zero} ELSE IF t < h.x THEN {s} ELSE IF t = h.x THEN {s, Zero} ELSE {Zero}
    [] h.k = "expr" -> {Poly(DPoly(h.p, 4), T4(t))}
    [] h.k = "sin"  -> {Whole(h.v * h.n * Sin4(h.n * t + h.m + 1))} \* per turn
    [] OTHER -> {Zero}
TiZero(h) == CASE h.k \in {"const", "lin", "ramp", "dirac", "step", "sin"} -> h.v = 0
               [] h.k = "tab" -> h.v = 0 \/ \A k \in 1..Len(h.p) : h.p[k][2] = 0
               [] OTHER -> FALSE
\* sound only: no dependency on time
TiConst(h) == CASE h.k \in {"none", "const"} -> TRUE
                [] h.k = "ramp" -> h.v = 0 \/ ~RampOK(h)
                [] h.k \in {"lin", "dirac", "step"} -> h.v = 0
                [] h.k = "sin" -> h.v = 0 \/ h.n = 0
                [] h.k = "tab" -> h.v = 0 \/ \A k \in 1..Len(h.p) : h.p[k][2] = h.p[1][2]
                [] h.k = "expr" -> \A k \in 1..Len(h.p) : h.p[k][1] = 0 \/ h.p[k][5] = 0

(* ---- real functions A g(X) h(t); without a time component, the time is zero ---- *)
In(x, a, b) == a <= x /\ x <= b
\* the quadratic function has the value A midway between its roots
Quad(A, a, b, x) == Mul(Mul(Whole(4 * A), Mul(Qtr(a - x), Qtr(x - b))), Mul(Recip(a - b), Recip(a - b)))
Ramped(g, X, hasT) == hasT /\ g.ramp > 0 /\ X[4] < g.ramp
Sp(A, g, X, hasT) ==
  CASE g.k = "none" -> {Whole(A)}
    [] g.k = "lin"  -> {Add(Mul(Whole(A), Qtr(X[g.dir])), Whole(g.b))}
    [] g.k = "quad" -> {Quad(A, g.a, g.b, X[g.dir])}
    [] g.k = "step" -> {IF In(X[g.dir], g.a, g.b) THEN Whole(A) ELSE Zero}
    [] g.k = "xy"   -> {IF In(X[1], g.l[1], g.l[3]) /\ In(X[2], g.l[2], g.l[4]) THEN Whole(A) ELSE Zero}
    [] g.k = "xyz"  -> {IF \A d \in 1..3 : In(X[d], g.l[d], g.l[d + 3]) THEN Whole(A) ELSE Zero}
    [] g.k = "interp" -> LET v == Prod({Whole(A)}, TabVal(g.p, X[g.dir])) IN
                         IF Ramped(g, X, hasT) THEN Prod(v, {Mul(Qtr(X[4]), Recip(g.ramp))}) ELSE v
    [] g.k = "expr" -> {Mul(Whole(A), Poly(g.p, IF hasT THEN X ELSE [X EXCEPT ![4] = 0]))}
SpDer(A, g, X, hasT, d) ==
  CASE g.k = "lin"  -> {IF d = g.dir THEN Whole(A) ELSE Zero}
    [] g.k = "quad" -> {IF d = g.dir THEN Mul(Mul(Whole(4 * A), Qtr(g.a + g.b - 2 * X[d])), Mul(Recip(g.a - g.b), Recip(g.a - g.b))) ELSE Zero}
    [] g.k = "interp" -> IF d = 4
                         THEN LET s == Prod({Whole(A)}, Prod(TabVal(g.p, X[g.dir]), {Recip(IF g.ramp > 0 THEN g.ramp ELSE 4)})) IN
                              IF Ramped(g, X, hasT) THEN s ELSE IF hasT /\ g.ramp > 0 /\ X[4] = g.ramp THEN s \cup {Zero} ELSE {Zero}
                         ELSE IF d # g.dir THEN {Zero}
                         ELSE LET s == Prod({Whole(A)}, TabDer(g.p, X[d])) IN
                              IF Ramped(g, X, hasT) THEN Prod(s, {Mul(Qtr(X[4]), Recip(g.ramp))}) ELSE s
    [] g.k = "expr" -> {Mul(Whole(A), Poly(DPoly(g.p, d), IF hasT THEN X ELSE [X EXCEPT ![4] = 0]))}
    [] OTHER -> {Zero}
SpDer2(A, g, X, hasT, d1, d2) ==
  CASE g.k = "quad" -> {IF d1 = g.dir /\ d2 = g.dir THEN Mul(Whole(-8 * A), Mul(Recip(g.a - g.b), Recip(g.a - g.b))) ELSE Zero}
    [] g.k = "expr" -> {Mul(Whole(A), Poly(DPoly(DPoly(g.p, d1), d2), IF hasT THEN X ELSE [X EXCEPT ![4] = 0]))}
    [] OTHER -> {Zero}
SpZero(A, g) == CASE g.k = "lin" -> A = 0 /\ g.b = 0
                  [] g.k = "interp" -> A = 0 \/ \A k \in 1..Len(g.p) : g.p[k][2] = 0
                  [] g.k = "expr" -> A = 0 \/ \A k \in 1..Len(g.p) : g.p[k][1] = 0
                  [] OTHER -> A = 0
SpConst(A, g) == CASE g.k = "interp" -> g.ramp <= 0 \/ SpZero(A, g)
                   [] g.k = "expr" -> A = 0 \/ \A k \in 1..Len(g.p) : g.p[k][1] = 0 \/ g.p[k][5] = 0
                   [] OTHER -> TRUE
Time(X, hasT) == IF hasT THEN X[4] ELSE 0
ReVal(f, X, hasT) == Prod(Sp(f.A, f.g, X, hasT), TiVal(f.h, Time(X, hasT)))
ReDer(f, X, hasT, d) ==
  LET s == Prod(SpDer(f.A, f.g, X, hasT, d), TiVal(f.h, Time(X, hasT))) IN
  IF d < 4 THEN s ELSE Plus(s, Prod(Sp(f.A, f.g, X, hasT), TiDer(f.h, Time(X, hasT))))
ReDer2(f, X, hasT, d1, d2) == Prod(SpDer2(f.A, f.g, X, hasT, d1, d2), TiVal(f.h, Time(X, hasT)))
ReZero(f) == SpZero(f.A, f.g) \/ TiZero(f.h)
ReConst(f) == ReZero(f) \/ (SpConst(f.A, f.g) /\ TiConst(f.h))
Good(f) == f.g.k # "bad" /\ f.h.k # "bad"

(* ---- vector functions of time from a table with three columns ---- *)
Comp(p, c) == [k \in 1..Len(p) |-> <<p[k][1], p[k][1 + c]>>]
SameRow(p, x) == At(p, x) = {} \/ Cardinality(At(p, x)) = 1
VtVal(p, x) == \* the components are taken from the same row at a jump
  IF SameRow(p, x) THEN {[c \in 1..3 |-> CHOOSE v \in TabVal(Comp(p, c), x) : TRUE]}
  ELSE {[c \in 1..3 |-> Whole(p[k][1 + c])] : k \in At(p, x)}
VtZero(p) == \A k \in 1..Len(p), c \in 1..3 : p[k][1 + c] = 0
VtConst(p) == \A k \in 1..Len(p), c \in 1..3 : p[k][1 + c] = p[1][1 + c]

(* ---- vector functions from expressions ---- *)
VeVal(q, X) == [c \in 1..Len(q) |-> Poly(q[c].p, X)]
VeDer(q, X, d) == [c \in 1..Len(q) |-> Poly(DPoly(q[c].p, d), X)]
VeConst(q) == \A c \in 1..Len(q) : \A k \in 1..Len(q[c].p) : q[c].p[k][1] = 0 \/ q[c].p[k][5] = 0
VeZero(q) == \A c \in 1..Len(q) : \A k \in 1..Len(q[c].p) : q[c].p[k][1] = 0

(* ---- the sum of functions: those with a positive weight are added, for the others the largest value is taken ---- *)
Dim(F, k) == IF F[k].c = "v" THEN Len(F[k].f.q) ELSE 1
\* the functions accepted: those with the dimension of the first one
Fits(F, l, i) == Dim(F, l[i].f + 1) = Dim(F, l[1].f + 1)
FVal(F, k, X, hasT) == IF F[k].c = "v" THEN {VeVal(F[k].f.q, IF hasT THEN X ELSE [X EXCEPT ![4] = 0])}
                       ELSE {<<v>> : v \in ReVal(F[k].f, X, hasT)}
AddW(a, b, w) == [i \in DOMAIN a |-> Add(a[i], Mul(Whole(w), b[i]))]
MaxV(a, b) == [i \in DOMAIN a |-> IF Lt(a[i], b[i]) THEN b[i] ELSE a[i]]
RECURSIVE SumUp(_, _, _, _, _, _)
SumUp(F, l, i, X, hasT, S) ==
  IF i > Len(l) THEN S
  ELSE IF ~Fits(F, l, i) THEN SumUp(F, l, i + 1, X, hasT, S)
  ELSE LET V == FVal(F, l[i].f + 1, X, hasT)
           N == IF i = 1 THEN IF l[1].w > 0 THEN {AddW([c \in DOMAIN v |-> Zero], v, l[1].w) : v \in V} ELSE V
                ELSE IF l[i].w > 0 THEN {AddW(a, b, l[i].w) : a \in S, b \in V} ELSE {MaxV(a, b) : a \in S, b \in V}
       IN SumUp(F, l, i + 1, X, hasT, N)
SumVal(F, l, X, hasT) == SumUp(F, l, 1, X, hasT, {})
=============================================================================
