------------------------------- MODULE Chains -------------------------------
(* Resolving chained equations by substituting one master at a time, in any  *)
(* order: it ends, and with the same result whatever the order.              *)
EXTENDS Model

CONSTANTS Slots, Weights
VARIABLE eq    \* the equations being resolved: [off, lin]

KS == {<<k, 1>> : k \in 1..Slots}
AllEqs == {f \in [KS -> {[c0 |-> 0, ms |-> <<>>, code |-> -1]} \cup
             {[c0 |-> 1, ms |-> ms, code |-> 0] : ms \in {<<>>} \cup {<<[k |-> a, a |-> w]>> : a \in KS, w \in Weights}
                 \cup {<<[k |-> a, a |-> w], [k |-> b, a |-> 2]>> : a \in KS, b \in KS, w \in Weights}}] :
             \A k \in KS : \A j \in 1..Len(f[k].ms) : f[k].ms[j].k[1] > k[1]}
Lin0(ms) == [x \in KS |-> SumSeq(ms, 1, LAMBDA t : IF t.k = x THEN t.a ELSE 0)]
MCInit == /\ c = [pat |-> <<>>]
          /\ \E f \in AllEqs : \E F \in SUBSET KS :
               LET S == {k \in KS : f[k].code >= 0}
                   all == [k \in S |-> f[k]]
               IN  /\ m = [all |-> all, fix |-> F]
                   /\ eq = [k \in S \ F |-> [off |-> f[k].c0, lin |-> Lin0(f[k].ms)]]
Reducible == {<<k, x>> \in (DOMAIN eq) \X KS : eq[k].lin[x] # 0 /\ (x \in m.fix \/ x \in DOMAIN eq)}
Step(k, x) ==
  /\ eq' = [eq EXCEPT ![k] = IF x \in m.fix THEN [off |-> @.off, lin |-> [@.lin EXCEPT ![x] = 0]]
              ELSE [off |-> @.off + @.lin[x] * eq[x].off,
                    lin |-> [y \in KS |-> (IF y = x THEN 0 ELSE @.lin[y]) + @.lin[x] * eq[x].lin[y]]]]
  /\ UNCHANGED <<c, m>>
MCNext == \E kx \in Reducible : Step(kx[1], kx[2])
ChSpec == MCInit /\ [][MCNext]_<<c, m, eq>> /\ WF_<<c, m, eq>>(MCNext)

Confluent == Reducible = {} => \A k \in DOMAIN eq : LET r == Res(m.all, m.fix, KS, <<1, 1, 1>>, k)
                                                   IN  eq[k].off = r.off /\ eq[k].lin = r.lin
Ends == <>(Reducible = {})
=============================================================================
