------------------------------ MODULE Dynamics ------------------------------
(* Implicit time integration of M a + C v + S(d) = F with two unknowns: the Newmark method (N), its
   Hilber-Hughes-Taylor generalizations (L: nonlinear Newmark, H: HHT with the new predictor) and
   the generalized-alpha method (G).
   Numbers are fixed-point integers: parameters in units of 1e-4, states in units of 1e-5.
   Rounded states satisfy the relations up to a tolerance, exact ones (in the model) precisely. *)
EXTENDS Integers, Sequences

\* x*n for a state x and a parameter n, in parts which stay within 32 bits
Mul(x, n) == (x \div 10000) * n + ((x % 10000) * n) \div 10000
Quo(n, m) == (n * 10000) \div m            \* n/m for parameters
Pro(n, m) == (n * m) \div 10000            \* n*m for parameters
\* x*y for two states
MulS(x, y) == LET xh == x \div 1000   xl == x % 1000   yh == y \div 1000   yl == y % 1000
              IN xh*yh*10 + (xh*yl) \div 100 + (xl*yh) \div 100 + (xl*yl) \div 100000
Abs(x) == IF x < 0 THEN -x ELSE x
V2(f(_)) == <<f(1), f(2)>>
Sc(x, n) == <<Mul(x[1], n), Mul(x[2], n)>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Mat(A, x) == <<Mul(x[1], A[1]) + Mul(x[2], A[2]), Mul(x[1], A[2]) + Mul(x[2], A[3])>>
Near(x, y, tol) == Abs(x[1] - y[1]) <= tol /\ Abs(x[2] - y[2]) <= tol
Zero == <<0, 0>>

(* ----- the parameters of the method, from the attributes of the input ----- *)
\* c: [scheme, ptype, p1, p2, ...]
Default(c) == IF c.scheme = "N" THEN [alpha |-> 0, af |-> 10000, am |-> 10000] ELSE [alpha |-> -1000, af |-> 9000, am |-> 10000]
Spectral(c) == IF c.scheme # "N" /\ c.ptype = "alpha" THEN [alpha |-> c.p1, af |-> 10000 + c.p1, am |-> 10000]
               ELSE IF c.scheme # "N" /\ c.ptype = "rho"
               THEN LET af == Quo(10000, 10000 + c.p1)   am == Quo(20000 - c.p1, 10000 + c.p1) IN [alpha |-> af - am, af |-> af, am |-> am]
               ELSE Default(c)
Alpha(c) == Spectral(c).alpha
Beta(c) == IF c.scheme = "N" THEN (IF c.ptype = "beta" THEN c.p1 ELSE 2500) ELSE Pro(10000 - Alpha(c), 10000 - Alpha(c)) \div 4
Gamma(c) == IF c.scheme = "N" THEN (IF c.ptype = "beta" THEN c.p2 ELSE 5000) ELSE 5000 - Alpha(c)
\* the method with the derived parameters
Method(c) == [scheme |-> c.scheme, alpha |-> Alpha(c), beta |-> Beta(c), gamma |-> Gamma(c), af |-> Spectral(c).af, am |-> Spectral(c).am]

(* ----- the forces ----- *)
\* p: the problem [M, C, K, k3, a1, a2]
Dmp(p, d, v) == LET K == Mat(p.K, v)
                    k3 == IF p.k3 = 0 THEN 0 ELSE 3 * Mul(MulS(MulS(d[1], d[1]), v[1]), p.k3)
                IN Add(Mat(p.C, v), Add(Sc(Mat(p.M, v), p.a1), Sc(<<K[1] + k3, K[2]>>, p.a2)))
IntF(p, d) == LET K == Mat(p.K, d) IN IF p.k3 = 0 THEN K ELSE <<K[1] + Mul(MulS(MulS(d[1], d[1]), d[1]), p.k3), K[2]>>
\* what keeps the acceleration up besides the inertia: S + C v - F for a state <<d, v, a>>
Rest(p, s, F) == Sub(Add(IntF(p, s[1]), Dmp(p, s[1], s[2])), F)

(* ----- the relations of an accepted step from s0 to s1 ----- *)
NewD(m, dt, s0, a1) == Add(s0[1], Sc(Add(s0[2], Sc(Add(Sc(s0[3], 5000 - m.beta), Sc(a1, m.beta)), dt)), dt))
NewV(m, dt, s0, a1) == Add(s0[2], Sc(Add(Sc(s0[3], 10000 - m.gamma), Sc(a1, m.gamma)), dt))
Kinematics(m, dt, s0, s1, tol) == Near(s1[1], NewD(m, dt, s0, s1[3]), tol) /\ Near(s1[2], NewV(m, dt, s0, s1[3]), tol)
Mid(x0, x1, w) == Add(Sc(x0, 10000 - w), Sc(x1, w))
\* the state where the generalized-alpha method is in equilibrium
Inter(m, s0, s1) == <<Mid(s0[1], s1[1], m.af), Mid(s0[2], s1[2], m.af), Mid(s0[3], s1[3], m.am)>>
\* the state s between s0 and the new one, as seen by the forces
Between(m, dt, s0, s, tol) ==
  LET D == Sub(s[1], s0[1])   V == Sub(s[2], s0[2])   A == Sub(s[3], s0[3])   w == Pro(m.af, m.am)
  IN /\ Near(Sc(D, m.am), Add(Sc(Sc(Add(s0[2], Sc(Sc(s0[3], 5000), dt)), dt), w), Sc(Sc(Sc(Sc(A, dt), dt), m.beta), m.af)), tol)
     /\ Near(Sc(V, m.am), Sc(Add(Sc(s0[3], w), Sc(Sc(A, m.gamma), m.af)), dt), tol)
\* r0: Rest of the previous accepted state (of a state at rest: none), F the load of this step
Residual(m, p, s0, s1, F, r0) ==
  CASE m.scheme = "N" -> Add(Mat(p.M, s1[3]), Rest(p, s1, F))
    [] m.scheme \in {"L", "H"} -> Sub(Add(Mat(p.M, s1[3]), Sc(Rest(p, s1, F), 10000 + m.alpha)), Sc(r0, m.alpha))
    [] OTHER -> LET s == Inter(m, s0, s1) IN Add(Mat(p.M, s[3]), Rest(p, s, F))
Balance(m, p, s0, s1, F, r0, tol) == Near(Residual(m, p, s0, s1, F, r0), Zero, tol)
\* initial accelerations of a structure at rest
Start(p, a, F, tol) == Near(Mat(p.M, a), F, tol)

(* ----- the same methods as predictors and correctors; all divisions have to be exact ----- *)
Ratio(m) == Quo(m.gamma, m.beta)
Per(dt) == Quo(10000, dt)
PredN(m, pred, dt, s) ==
  CASE pred = "a" -> <<NewD(m, dt, s, Zero), NewV(m, dt, s, Zero), Zero>>
    [] pred = "v" -> <<Add(s[1], Sc(Add(s[2], Sc(s[3], Pro(dt, 5000 - Quo(m.beta, m.gamma)))), dt)), s[2], Sc(s[3], 10000 - Quo(10000, m.gamma))>>
    [] OTHER -> <<s[1], Add(Sc(s[2], 10000 - Ratio(m)), Sc(Sc(s[3], 10000 - Ratio(m) \div 2), dt)),
                  Sub(Sc(s[3], 10000 - Quo(5000, m.beta)), Sc(Sc(s[2], Quo(10000, m.beta)), Per(dt)))>>
\* x: an increment of the accelerations
Corr(m, dt, s, x) == <<Add(s[1], Sc(Sc(Sc(x, m.beta), dt), dt)), Add(s[2], Sc(Sc(x, m.gamma), dt)), Add(s[3], x)>>
\* x: an increment of the displacements
CorrD(m, dt, s, x) == <<Add(s[1], x), Add(s[2], Sc(Sc(x, Ratio(m)), Per(dt))), Add(s[3], Sc(Sc(Sc(x, Quo(10000, m.beta)), Per(dt)), Per(dt)))>>
\* velocity and acceleration after the total increment x of the displacements
Update(m, dt, s, x) == CorrD(m, dt, PredN(m, "d", dt, s), x)
=============================================================================
