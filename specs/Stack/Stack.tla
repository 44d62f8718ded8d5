------------------------------- MODULE Stack -------------------------------
(* The stack of solution vectors of a simulator: the current state and the ones of the previous steps, each of a number *)
(* of vectors (the displacement, velocity and acceleration, e.g.), and the data saved from it in an archive which *)
(* several simulators may share. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Zeros(n) == [k \in 1..n |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Empty == [v |-> <<>>, r |-> 0]
\* all the vectors are cleared, there is always at least one. A simulator which has solutions keeps the number of them
Initialise(x, kind, nd, ns) ==
  [x EXCEPT !.v = TLCEval([k \in 1..(IF kind > 0 /\ x.v # <<>> THEN Len(x.v) ELSE Max(ns, 1)) |-> Zeros(nd)])]
\* one state is nv vectors; those beyond the last complete state are left alone
Shift(v, nv) ==
  LET n == (Len(v) \div nv) * nv IN
  TLCEval([k \in 1..Len(v) |-> IF k > nv /\ k <= n THEN v[k - nv] ELSE v[k]])
Push(x, nv) == [x EXCEPT !.v = Shift(@, nv)]
Put(x, i, w) == IF i < 0 THEN x ELSE [x EXCEPT !.v = TLCEval([k \in 1..Len(x.v) |-> IF k = i + 1 THEN w ELSE x.v[k]])]
\* an archive has one entry for each name; cut: the last vector is incomplete, void: nothing is left
NoArchive == [sol |-> <<>>, ref |-> <<>>]
At(f, k, v) == TLCEval([j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]])
Save(a, nam, x, kind) ==
  [a EXCEPT !.sol = At(@, nam, [v |-> x.v, dmg |-> "no"]), !.ref = IF kind > 0 THEN At(@, nam, x.r) ELSE @]
Damage(a, nam, cut) ==
  IF nam \notin DOMAIN a.sol THEN a
  ELSE IF cut = 0 THEN [a EXCEPT !.sol = TLCEval([j \in DOMAIN a.sol \ {nam} |-> a.sol[j]])]
  ELSE [a EXCEPT !.sol = At(@, nam, [v |-> a.sol[nam].v, dmg |-> IF cut < 0 \/ a.sol[nam].dmg = "void" THEN "void" ELSE "cut"])]
\* the archive has all the vectors of the simulator (it may have more of them)
Readable(a, nam, x) ==
  IF nam \notin DOMAIN a.sol THEN FALSE
  ELSE LET e == a.sol[nam] IN
       CASE e.dmg = "void" -> Len(x.v) = 0
         [] e.dmg = "cut" -> Len(x.v) < Len(e.v) \/ Len(x.v) = 0
         [] OTHER -> Len(x.v) <= Len(e.v)
Restore(a, nam, x, kind) ==
  [v |-> IF Readable(a, nam, x) THEN SubSeq(a.sol[nam].v, 1, Len(x.v)) ELSE x.v,
   r |-> IF kind > 0 /\ nam \in DOMAIN a.ref THEN a.ref[nam] ELSE x.r]
=============================================================================
