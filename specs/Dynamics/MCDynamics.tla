----------------------------- MODULE MCDynamics -----------------------------
(* The predictor/corrector algorithms of the four drivers as state machines, with whatever increments
   the linear solver gives; they have to preserve the relations of their methods. *)
EXTENDS Dynamics, TLC
CONSTANTS Steps, Corrections, Incs, DTs, Schemes
VARIABLES m,      \* the method
          pred, disp,   \* predictor, and whether displacement increments are solved for
          s0,     \* the accepted state
          cur,    \* the state the forces are evaluated for
          tmp,    \* HHT, nonlinear: predicted velocity and acceleration; generalized-alpha: the new state
          inc,    \* accumulated displacement increment
          dt, it, n,
          f0, en  \* the last load, and whether the energy balanced
vars == <<m, pred, disp, s0, cur, tmp, inc, dt, it, n, f0, en>>
Prob == [M |-> <<10000, 0, 20000>>, C |-> <<5000, 0, 0>>, K |-> <<20000, -10000, 20000>>, k3 |-> 0, a1 |-> 0, a2 |-> 0]
Inputs == [scheme : Schemes, ptype : {"beta"}, p1 : {2500, 5000}, p2 : {5000}] \cup [scheme : Schemes \ {"N"}, ptype : {"alpha"}, p1 : {0, -3000}, p2 : {0}]
          \cup [scheme : Schemes \ {"N"}, ptype : {"rho"}, p1 : {0, 2500, 10000}, p2 : {0}]
Cfg == {c \in Inputs : c.scheme = "N" \/ c.ptype # "beta"}
Unit == 40000
Vecs == {<<x * Unit, y * Unit>> : x \in Incs, y \in {1}}
Ini == <<<<Unit, 0>>, <<0, 2 * Unit>>, <<-Unit, Unit>>>>
Init == /\ \E c \in Cfg : m = Method(c)
        /\ pred \in (IF m.scheme = "N" THEN {"a", "v", "d"} ELSE IF m.scheme = "G" THEN {"a", "v"} ELSE {"d"})
        /\ disp \in (IF m.scheme = "N" THEN BOOLEAN ELSE {m.scheme # "G"})
        /\ s0 = Ini /\ cur = s0 /\ tmp = s0 /\ inc = Zero /\ dt = 0 /\ it = -1 /\ n = 0 /\ f0 = <<>> /\ en = TRUE
Neg(x) == Sub(Zero, x)
PredV(h) == Add(Sc(s0[2], Ratio(m)), Sc(Sc(s0[3], Ratio(m) \div 2 - 10000), h))
PredA(h) == Add(Sc(s0[3], Quo(5000, m.beta)), Sc(Sc(s0[2], Quo(10000, m.beta)), Per(h)))
Predict == /\ it = -1 /\ n < Steps /\ it' = 0 /\ dt' \in DTs /\ inc' = Zero
           /\ CASE m.scheme = "N" -> cur' = PredN(m, pred, dt', s0) /\ tmp' = tmp
                [] m.scheme = "L" -> LET v == Sub(PredV(dt'), s0[2])   a == Sub(PredA(dt'), s0[3]) IN cur' = <<s0[1], v, a>> /\ tmp' = <<Zero, Neg(v), Neg(a)>>
                [] m.scheme = "H" -> cur' = s0 /\ tmp' = <<Zero, PredV(dt'), PredA(dt')>>
                [] OTHER -> tmp' = PredN(m, pred, dt', s0) /\ cur' = Inter(m, s0, tmp')
           /\ UNCHANGED <<m, pred, disp, s0, n, f0, en>>
Add2(s, x) == IF disp THEN CorrD(m, dt, s, x) ELSE Corr(m, dt, s, x)
Moved(v, a, x) == <<Add(cur[1], x), Add(v, Sc(Sc(inc', Ratio(m)), Per(dt))), Add(a, Sc(Sc(Sc(inc', Quo(10000, m.beta)), Per(dt)), Per(dt)))>>
Correct == /\ it >= 0 /\ it < Corrections /\ it' = it + 1
           /\ \E x \in Vecs :
              /\ inc' = Add(inc, x)
              /\ CASE m.scheme = "N" -> cur' = Add2(cur, x) /\ tmp' = tmp
                   [] m.scheme = "L" -> cur' = Moved(tmp[2], tmp[3], x) /\ tmp' = tmp
                   [] m.scheme = "H" -> LET v == IF it = 0 THEN Sub(cur[2], tmp[2]) ELSE tmp[2]
                                            a == IF it = 0 THEN Sub(cur[3], tmp[3]) ELSE tmp[3]
                                        IN tmp' = <<Zero, v, a>> /\ cur' = Moved(v, a, x)
                   [] OTHER -> tmp' = Add2(tmp, x) /\ cur' = Inter(m, s0, tmp')
           /\ UNCHANGED <<m, pred, disp, s0, dt, n, f0, en>>
New == IF m.scheme = "G" THEN tmp ELSE cur
\* the load which makes the new state the right one, and the change of energy
Load(s) == Add(Mat(Prob.M, s[3]), Rest(Prob, s, Zero))
Dot(x, y) == MulS(x[1], y[1]) + MulS(x[2], y[2])
Half(x) == Sc(x, 5000)
Energy(s) == (Dot(s[2], Mat(Prob.M, s[2])) + Dot(s[1], Mat(Prob.K, s[1]))) \div 2
Work(x, y, F0, F1) == Dot(Sub(y[1], x[1]), Sub(Half(Add(F0, F1)), Mat(Prob.C, Half(Add(x[2], y[2])))))
Average == m.beta = 2500 /\ m.gamma = 5000 /\ m.alpha = 0
Accept == /\ it > 0 /\ n' = n + 1 /\ it' = -1 /\ s0' = New /\ cur' = New
          /\ LET s == New   f == Load(s) IN
             f0' = f /\ en' = (f0 = <<>> \/ ~Average \/ Abs(Energy(s) - Energy(s0) - Work(s0, s, f0, f)) <= 200)
          /\ UNCHANGED <<m, pred, disp, tmp, inc, dt>>
Next == Predict \/ Correct \/ Accept
MCSpec == Init /\ [][Next]_vars
\* the quotients of the parameters have four decimals
Size(s) == LET A == {Abs(s[k][j]) : k \in 1..3, j \in 1..2} IN CHOOSE x \in A : \A y \in A : y <= x
Eps == IF m.alpha = 0 THEN 20 ELSE 20 + (Size(s0) + Size(New)) \div 1000
TrialConsistent == it > 0 \/ (it = 0 /\ m.scheme \in {"N", "G"}) => Kinematics(m, dt, s0, New, Eps)
SeenConsistent == it >= 0 /\ m.scheme = "G" => Between(m, dt, s0, cur, Eps)
\* the input of the methods gives the second order accurate, unconditionally stable family
Accurate == m.scheme # "N" => /\ m.gamma = 5000 - m.alpha /\ Abs(4 * m.beta - Pro(10000 - m.alpha, 10000 - m.alpha)) <= 3
                              /\ (m.scheme = "G" => m.alpha = m.af - m.am /\ m.am >= m.af /\ m.af >= 5000)
EnergyBalance == en
\* without damping of the method all of them are the same
Coincide == it = -1 /\ n > 0 /\ m.alpha = 0 =>
            /\ (m.scheme # "G" => Near(Residual(m, Prob, s0, s0, f0, Zero), Zero, 0))
            /\ (m.scheme = "G" /\ m.af = 10000 /\ m.am = 10000 => Near(Residual(m, Prob, s0, s0, f0, Zero), Zero, 0))
Predicted == it = 0 => CASE m.scheme = "N" /\ pred = "a" -> cur[3] = Zero
                         [] m.scheme = "N" /\ pred = "v" -> cur[2] = s0[2]
                         [] m.scheme = "N" -> cur[1] = s0[1]
                         [] OTHER -> TRUE
=============================================================================
