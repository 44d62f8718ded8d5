------------------------------ MODULE MCCoupled ------------------------------
(* All histories of operations on couplings where any call of a part may have any result. *)
EXTENDS Coupled, Json
CONSTANTS MaxOps, MaxSteps, Kinds, Results, Exhaustive
VARIABLES c, d,
          log,       \* the calls of the current operation with their results
          n, cur, h
vars == <<c, d, log, n, cur, h>>
View == <<c, d, log, n>>
Base == [kind |-> "c", np |-> 0, mode |-> 0, n |-> 0, om |-> 0, ait |-> FALSE]
Schemes == {Base, [Base EXCEPT !.kind = "n"], [Base EXCEPT !.kind = "semi", !.np = 2], [Base EXCEPT !.kind = "semi", !.np = 3]} \cup
           {[Base EXCEPT !.kind = "si", !.mode = m, !.n = k] : m \in {1, 3}, k \in {0, 1, 2}} \cup
           {[Base EXCEPT !.kind = "si", !.mode = 1, !.n = 2, !.om = 32, !.ait = a] : a \in BOOLEAN}
Args(k, f) == IF f = "solve" THEN IF k = "semi" THEN {<<1>>} ELSE {<<0>>, <<1>>}
              ELSE IF f = "stag" THEN {<<0>>, <<1>>}
              ELSE IF f = "dep3" THEN IF k = "semi" THEN {<<2>>} ELSE {<<1, 2>>}
              ELSE IF f = "dep6" THEN IF k = "semi" THEN {<<2, 0, 1>>, <<2, 1, 3>>} ELSE {<<2, 2, 1, 1, 3>>}
              ELSE IF f = "null" THEN {<<1, 1>>, <<2, 1>>, <<1, 0>>}
              ELSE {<<>>}
Ops(k) == IF k = "semi" THEN {"pre", "adv", "init", "ic", "solve", "ale", "sys", "setdep", "dep3", "dep6", "regf", "null", "save"}
          ELSE {"pre", "adv", "init", "ic", "ser", "des", "save", "model", "solve", "stag", "dep3", "dep6", "regf", "hasic", "getf"}
Void == {"vtf", "post", "relax", "dump", "clear", "dep3", "dep6", "sys", "setdep", "regf"}
Init == c \in {x \in Schemes : x.kind \in Kinds} /\ d = New(c) /\ log = <<>> /\ n = 0 /\ cur = <<>> /\ h = <<>>
Tag(f) == CASE f = "dep3" -> "a" [] f = "dep6" -> "b" [] f = "hasic" -> "i" [] f = "getf" -> "g" [] OTHER -> ""
Do(f, a) ==
  /\ d.pc = "idle" /\ n < MaxOps /\ n' = n + 1
  /\ (f = "regf" /\ c.kind = "semi" => ~d.reg)
  /\ (f = "null" => d.reg)
  /\ d' = Start(c, d, f, a, Tag(f)) /\ log' = <<>>
  /\ h' = IF cur = <<>> THEN h ELSE Append(h, cur)
  /\ cur' = [f |-> f, a |-> a, step |-> d.step, r |-> <<>>] /\ c' = c
Tick == /\ d.pc = "idle" /\ d.step < MaxSteps /\ n < MaxOps
        /\ d' = [d EXCEPT !.step = @ + 1, !.f = ""] /\ log' = <<>> /\ UNCHANGED <<c, n, cur, h>>
Answer(r, z) ==
  /\ d.pc # "idle" /\ ~d.wild
  /\ LET e == Expect(c, d) IN
     /\ IF e[2] \in {"it", "chk"} THEN r \in Results ELSE IF e[2] \in Void THEN r = 1 ELSE r \in {0, 1}
     /\ IF e[2] = "chk" /\ c.ait THEN TRUE ELSE z = 0
     \* the parts are seldom overruled
     /\ (e[2] = "chk" => r = e[3][3] \/ (r # 3 /\ ~c.ait /\ (Exhaustive \/ RandomElement(1..6) = 1)))
     /\ (e[2] # "chk" /\ r = 0 => Exhaustive \/ RandomElement(1..4) = 1)
     /\ (r = 1 /\ e[2] = "it" => Exhaustive \/ RandomElement(1..4) = 1)
     /\ log' = TLCEval(Append(log, <<e[1], e[2], r>>))
     /\ cur' = [cur EXCEPT !.r = Append(@, <<e[1], e[2], r, z>>)]
  /\ d' = After(c, d, r, z) /\ UNCHANGED <<c, n, h>>
Next == \/ \E f \in Ops(c.kind) : \E a \in Args(c.kind, f) : Do(f, a)
        \/ Tick
        \/ \E r \in 0..4, z \in {16, -32, 0} : Answer(r, z)
Spec == Init /\ [][Next]_vars

Calls(s, f) == Len(SelectSeq(log, LAMBDA e : e[1] = s /\ e[2] = f))
Idle == d.pc = "idle" /\ n > 0 /\ ~d.wild
Owned == SelectSeq(log, LAMBDA e : e[2] = d.f)
Many == d.f \in {"pre", "adv", "init", "ic", "ser", "des", "solve", "ale"} \/ (d.f = "save" /\ c.kind # "semi")
\* an operation is successful exactly when all parts have done it once with success
Success == Idle /\ Many /\ ~(c.kind = "si" /\ d.f = "solve") =>
             (d.ok = 1 <=> (\A i \in 1..Len(Owned) : Owned[i][3] = 1) /\ \A i \in 1..Len(Parts(c)) : Calls(Parts(c)[i], d.f) = 1)
\* nothing is asked twice, and nothing after a failure unless it is done for all
Stops == Many /\ ~(c.kind = "si" /\ d.f = "solve") =>
           /\ \A i, j \in 1..Len(Owned) : i < j => Owned[i][1] # Owned[j][1] /\ (Owned[i][3] = 1 \/ (d.f = "ic" /\ c.kind = "semi"))
\* the plane exports: every plane which has something new and defined
Planes == Idle /\ d.f = "save" /\ c.kind = "semi" => /\ \A k \in 1..Len(log) : log[k][2] = "dump"
                                                     /\ (d.ok = 1 /\ d.reg => \A k \in 1..c.np : d.dumped[k] >= d.step \/ d.step <= 0)
\* the sub-iterations: in lock-step, within the limit, until convergence, finished by both, and no failure is lost
Its(s) == SelectSeq(log, LAMBDA e : e[1] = s /\ e[2] = "it")
Chks == SelectSeq(log, LAMBDA e : e[2] = "chk")
Sub == c.kind = "si" /\ d.f = "solve"
Lock == Sub => LET a == Len(Its(d.order[1])) b == Len(Its(d.order[2])) k == Len(Chks) IN a >= b /\ b >= k /\ k >= a - 1
Limit == Sub => Len(Its(1)) <= MaxIt(c, d) + 1 /\ Len(Its(2)) <= MaxIt(c, d) + 1
Lost == Sub /\ Idle => (d.ok = 0 <=> \E i \in 1..Len(log) : log[i][2] \in {"it", "chk"} /\ log[i][3] <= 1)
Until == Sub /\ Idle /\ d.ok = 1 => /\ Calls(1, "post") = 1 /\ Calls(2, "post") = 1
                                    /\ Len(Chks) >= 1 /\ (Chks[Len(Chks)][3] = 4 \/ Len(Chks) = MaxIt(c, d) + 1)
                                    /\ \A i \in 1..(Len(Chks) - 1) : Chks[i][3] # 4
Once == Sub /\ Idle /\ d.ok = 0 => Calls(1, "post") = 0 /\ Calls(2, "post") = 0
\* the VTF file is shared
Shared == Idle /\ d.f = "model" /\ d.ok = 1 => \A i \in 1..Len(Parts(c)) : d.vtf[i] = d.vtf[1]
Emit == Idle /\ n = MaxOps => PrintT(<<"SCN", ToJson([c |-> c, h |-> Append(h, cur)])>>)
=============================================================================
