----------------------------- MODULE MCExporter -----------------------------
(* All histories of registrations, values and exports of two fields *)
EXTENDS Exporter, Json
CONSTANTS Depth
VARIABLES s, exported,   \* for each written level: the fields which are written
          steps,         \* and the steps
          n, h
vars == <<s, exported, steps, n, h>>
Names == 0..1
Init == /\ \E st \in {1, 2}, l0 \in {0, 3} : s = New(st, l0)
        /\ exported = <<>> /\ steps = <<>> /\ n = 0 /\ h = <<>>
Op(x) == h' = Append(h, x)
Quiet == UNCHANGED <<exported, steps>>
Reg(k, ty, res) == s' = Register(s, k, ty, res, 0, 0) /\ Op(<<"reg", k, ty, res>>) /\ Quiet
Val(k, v) == s' = Set(s, k, v, v) /\ Op(<<"val", k, v>>) /\ Quiet
Ctl(k, on) == s' = Enable(s, k, on) /\ Op(<<"ctl", k, on>>) /\ Quiet
Stride(v) == s' = [s EXCEPT !.stride = v] /\ Op(<<"str", v>>) /\ Quiet
Exp(step, geo) == /\ Op(<<"dump", step, geo>>)
                  /\ IF Due(s, step) /\ Defined(s)
                     THEN /\ s' = Dump(s, step, -1)
                          /\ exported' = Append(exported, {[n |-> k, geo |-> Geo(s, step, geo)] : k \in {x \in Written(s) : s.fld[x].on}})
                          /\ steps' = Append(steps, step)
                     ELSE UNCHANGED <<s, exported, steps>>
\* the steps of a simulation never decrease
Later(step) == \A k \in 1..Len(steps) : steps[k] <= step
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E k \in Names, ty \in {0, 3, 9}, res \in {1, 33} : Reg(k, ty, res)
           \/ \E k \in Names, v \in {-1, 2} : Val(k, v)
           \/ \E k \in Names, on \in BOOLEAN : Ctl(k, on)
           \/ Stride(3)
           \/ \E step \in 0..4, geo \in BOOLEAN : Later(step) /\ Exp(step, geo)
           \/ Exp(-1, FALSE)
Spec == Init /\ [][Next]_vars
Count(k) == Cardinality({j \in 1..Len(exported) : \E x \in exported[j] : x.n = k})
Changed == \E j \in 1..Len(h) : h[j][1] = "str"
Toggled == \E j \in 1..Len(h) : h[j][1] = "ctl"
Hidden == <<s, exported, steps, n, Changed, Toggled>>
\* one new level number for each export
Numbers == (\A j \in 1..Len(steps) : steps[j] >= 0) => \E l0 \in {0, 3} : s.lev = l0 - 1 + Len(exported)
\* not more than once, unless enabled again
OnlyOnce == ~Toggled => \A k \in DOMAIN s.fld : Once(s.fld[k].res) => Count(k) <= 1
\* the first export comes with the geometry
First == (exported # <<>> /\ steps[1] >= 0) => \A x \in exported[1] : x.geo
\* steps which are written have the stride between them, if it is not changed
Strides == ~Changed => \A j \in 2..Len(steps) : steps[j] > 0 /\ steps[j - 1] >= 0 => steps[j] - steps[j - 1] >= s.stride
Undefined == [][(\E k \in DOMAIN s.fld : s.fld[k].v[1] = None) => exported' = exported]_vars
Emit == n = Depth => PrintT(<<"SCN", ToJson([st |-> s.stride, h |-> h])>>)
=============================================================================
