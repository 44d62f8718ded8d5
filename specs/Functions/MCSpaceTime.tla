---------------------------- MODULE MCSpaceTime ----------------------------
(* A function is built, and then queried at arguments in any order.  Exhaustive: all small tables and parameters, where
   the look-up in tables is made by the search of the implementation.  Otherwise: random functions A g(X) h(t) and queries. *)
EXTENDS SpaceTime, Json
CONSTANTS MaxPts, Steps, Values, Amps, Args, Ramps, Queries, Exhaustive
VARIABLES c, x, got, hist
vars == <<c, x, got, hist>>

RECURSIVE Xs(_, _, _)
Xs(x0, dx, k) == IF k = 1 THEN x0 ELSE Xs(x0, dx, k - 1) + dx[k - 1]
Table(x0, dx, v) == [k \in DOMAIN v |-> <<Xs(x0, dx, k), v[k]>>]
Tables(on) == UNION {{Table(x0, dx, v) : x0 \in {-1, 0}, dx \in [1..(n - 1) -> Steps], v \in [1..n -> Values]} : n \in 1..MaxPts}
TimeFuns(on) == {[k |-> "tab", v |-> a, p |-> p] : a \in Amps, p \in Tables(on)}
            \cup {[k |-> k, v |-> a, x |-> r] : k \in {"ramp", "dirac", "step"}, a \in Amps, r \in Ramps}
            \cup {[k |-> "lin", v |-> a] : a \in Amps} \cup {[k |-> "sin", v |-> a, n |-> n, m |-> m] : a \in Amps, n \in -1..2, m \in -1..2}

(* ---- the search for the first point not before x, and the interpolation ---- *)
Lower(p, y) == IF Len(p) < 2 THEN 0 ELSE Cardinality(Before(p, y))
Found(p, y) == LET k == Lower(p, y) IN
  IF k = 0 THEN Whole(p[1][2]) ELSE IF k >= Len(p) THEN Whole(p[Len(p)][2])
  ELSE Add(Whole(p[k][2]), Mul(Slope(p, k), Qtr(y - p[k][1])))
FoundDer(p, y) == LET k == Lower(p, y) IN IF k = 0 \/ k >= Len(p) THEN Zero ELSE Slope(p, k)
Answer(h, y) == IF h.k = "tab" THEN Mul(Whole(h.v), Found(h.p, y)) ELSE CHOOSE v \in TiVal(h, y) : TRUE

None == [k |-> "none"]
Init == /\ hist = <<>> /\ x = 0
        /\ IF Exhaustive THEN c \in TimeFuns(TRUE) /\ got = Answer(c, 0) ELSE c = None /\ got = Zero
MAsk == /\ Exhaustive
        /\ \E y \in Args : x' = y /\ got' = Answer(c, y)
        /\ UNCHANGED <<c, hist>>

(* ---- random functions ---- *)
R(S) == {RandomElement(S)}
RTab(P(_)) == \E n \in R(1..MaxPts), x0 \in R({-1, 0, 2}) : \E dx \in R([1..(n - 1) -> Steps]), v \in R([1..n -> Values]) : P(Table(x0, dx, v))
GTime(P(_)) == \E k \in R({"none", "tab", "ramp", "dirac", "step", "lin"}), r \in R(Ramps) :
  IF k = "none" THEN P(None)
  ELSE IF k = "lin" THEN P([k |-> k, v |-> 1])
  ELSE IF k = "tab" THEN LET Q(p) == P([k |-> k, v |-> 1, p |-> p]) IN RTab(Q)
  ELSE P([k |-> k, v |-> 1, x |-> r])
GSpace(P(_)) == \E k \in R({"none", "lin", "quad", "step", "interp"}), d \in R(1..3), a \in R(Values), b \in R({1, -2, 4}), r \in R(Ramps) :
  CASE k = "none" -> P(None)
    [] k = "lin" -> P([k |-> k, dir |-> d, b |-> a])
    [] k = "quad" -> P([k |-> k, dir |-> d, a |-> a, b |-> a + b])
    [] k = "step" -> P([k |-> k, dir |-> d, a |-> a, b |-> a + b + 2])
    [] k = "interp" -> LET Q(p) == P([k |-> k, dir |-> d, ramp |-> r, p |-> p]) IN RTab(Q)
GPick == /\ ~Exhaustive /\ c = None
         /\ \E A \in R(Amps), via \in R(0..2) :
              LET S(g) == LET T(h) == c' = [k |-> "f", A |-> A, via |-> via, g |-> g, h |-> h] IN GTime(T) IN GSpace(S)
         /\ UNCHANGED <<x, got, hist>>
GAsk == /\ ~Exhaustive /\ c # None /\ Len(hist) < Queries
        /\ \E o \in R({"val", "val", "gval", "der", "grad"}), d \in R(1..4), x1 \in R(Args), x2 \in R(Args), x3 \in R(Args), x4 \in R(Args), t \in R({0, 1, 2}) :
             hist' = Append(hist, [op |-> o, dir |-> d, X |-> <<x1, x2, x3, x4>>, hasT |-> IF t = 0 THEN 0 ELSE 1])
        /\ UNCHANGED <<c, x, got>>
Next == MAsk \/ GPick \/ GAsk
Spec == Init /\ [][Next]_vars
Emit == (~Exhaustive /\ Len(hist) = Queries) => PrintT(<<"SCN", ToJson([c |-> c, h |-> hist])>>)

(* ---- what the functions guarantee ---- *)
Tab == c.k = "tab"
Scaled(v) == Mul(Whole(c.v), Whole(v))
LeQ(a, b) == ~Lt(b, a)
Admissible == Exhaustive => got \in TiVal(c, x)
\* the tabulated values at the tabulated instants
Hits == (Exhaustive /\ Tab /\ At(c.p, x) # {}) => got \in {Scaled(c.p[k][2]) : k \in At(c.p, x)}
\* between neighbouring values in between, and the end values beyond the ends
Between == (Exhaustive /\ Tab) =>
  LET n == Cardinality(Before(c.p, x)) L == Len(c.p) IN
  IF x < c.p[1][1] THEN got = Scaled(c.p[1][2])
  ELSE IF x > c.p[L][1] THEN got = Scaled(c.p[L][2])
  ELSE At(c.p, x) # {} \/ LET a == Scaled(c.p[n][2]) b == Scaled(c.p[n + 1][2]) IN (LeQ(a, got) /\ LeQ(got, b)) \/ (LeQ(b, got) /\ LeQ(got, a))
\* the derivatives are the difference quotients on either side
Steep == Exhaustive =>
  LET l == {Mul(Sub(b, a), Whole(4)) : a \in TiVal(c, x - 1), b \in TiVal(c, x)}
      r == {Mul(Sub(b, a), Whole(4)) : a \in TiVal(c, x), b \in TiVal(c, x + 1)}
  IN CASE Tab -> /\ \A k \in At(c.p, x - 1) \cup At(c.p, x) \cup At(c.p, x + 1) : At(c.p, c.p[k][1]) = {k}
                 => /\ TiDer(c, x) = l \cup r
                    /\ Mul(Whole(c.v), FoundDer(c.p, x)) \in TiDer(c, x)
       [] c.k \in {"lin", "ramp"} -> TiDer(c, x) \subseteq l \cup r
       [] OTHER -> TRUE
\* continuous, except at jumps
Jump == CASE Tab -> Cardinality(At(c.p, x)) > 1 [] c.k \in {"dirac", "step"} -> TRUE [] OTHER -> FALSE
OneValue == (Exhaustive /\ ~Jump) => Cardinality(TiVal(c, x)) = 1
Periodic == (Exhaustive /\ c.k = "sin") => TiVal(c, x) = TiVal(c, x + 4) /\ TiVal(c, x) # {} /\ (\A v \in TiVal(c, x) : LeQ(v, Whole(IF c.v < 0 THEN -c.v ELSE c.v)))
\* zero and constant functions are so for all instants
ZeroSound == Exhaustive => /\ (TiZero(c) => got = Zero)
                           /\ (TiConst(c) => got = Answer(c, 0))
=============================================================================
