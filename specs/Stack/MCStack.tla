------------------------------- MODULE MCStack -------------------------------
(* Simulators which share an archive: all histories of solving, advancing, saving, damaging and restoring *)
EXTENDS Stack, Json
CONSTANTS Depth
Sims == 1..2
VARIABLES kind, s, ar,
          acc,     \* for each simulator the states which have been accepted since it was initialised, newest first
          saved,   \* what each simulator had when it was saved, and the states which had been accepted then
          n, h
vars == <<kind, s, ar, acc, saved, n, h>>
Vecs(k) == IF kind[k] = 2 THEN 3 ELSE 1
Old(k) == [j \in 1..Vecs(k) |-> Zeros(1)]
Init == /\ kind \in [Sims -> {1, 2}] /\ s = [k \in Sims |-> Initialise(Empty, kind[k], 1, IF kind[k] = 2 THEN 7 ELSE 3)]
        /\ ar = NoArchive /\ acc = [k \in Sims |-> <<>>] /\ saved = [k \in Sims |-> <<>>] /\ n = 0 /\ h = <<>>
Op(x) == h' = Append(h, x)
\* a new solution is found and accepted, and later the next step is started: the displacement is set
Solve(k, v) == /\ s' = [s EXCEPT ![k] = Put(Put(@, 0, <<v>>), Vecs(k) - 1, <<v>>)] /\ Op(<<"set", k, v>>) /\ UNCHANGED <<ar, acc, saved>>
Adv(k) == /\ acc' = [acc EXCEPT ![k] = <<SubSeq(s[k].v, 1, Vecs(k))>> \o @] /\ s' = [s EXCEPT ![k] = Push(@, Vecs(k))] /\ Op(<<"push", k>>) /\ UNCHANGED <<ar, saved>>
Sav(k) == /\ ar' = Save(ar, k, s[k], kind[k]) /\ saved' = [saved EXCEPT ![k] = <<s[k].v, acc[k]>>] /\ Op(<<"save", k>>) /\ UNCHANGED <<s, acc>>
Dmg(k, c) == ar' = Damage(ar, k, c) /\ Op(<<"dmg", k, c>>) /\ UNCHANGED <<s, acc, saved>>
Rest(k) == /\ s' = [s EXCEPT ![k] = Restore(ar, k, @, kind[k])] /\ Op(<<"rest", k>>) /\ UNCHANGED <<ar, saved>>
           /\ acc' = IF Readable(ar, k, s[k]) THEN [acc EXCEPT ![k] = saved[k][2]] ELSE acc
Next == /\ n < Depth /\ n' = n + 1 /\ kind' = kind
        /\ \E k \in Sims : \/ \E v \in 1..2 : Solve(k, v)
                            \/ Adv(k) \/ Sav(k) \/ Rest(k)
                            \/ \E c \in {-1, 0, 3} : Dmg(k, c)
Spec == Init /\ [][Next]_vars
View == <<kind, s, ar, acc, saved, n>>
\* the states of the previous steps are those which were accepted, each at its place
Before(k, j) == SubSeq(s[k].v, j * Vecs(k) + 1, (j + 1) * Vecs(k))
History == \A k \in Sims : \A j \in 1..((Len(s[k].v) \div Vecs(k)) - 1) :
             Before(k, j) = IF j <= Len(acc[k]) THEN acc[k][j] ELSE Old(k)
Sizes == \A k \in Sims : Len(s[k].v) = (IF kind[k] = 2 THEN 7 ELSE 3) /\ \A j \in 1..Len(s[k].v) : Len(s[k].v[j]) = 1
\* the odd vector is never used
Odd == \A k \in Sims : kind[k] = 2 => s[k].v[7] = <<0>>
\* what is restored is what was saved, also after other simulators were saved or damaged
RoundTrip == [][\A k \in Sims : h' # h /\ h'[Len(h')] = <<"rest", k>> =>
               IF s[k].v # s'[k].v THEN s'[k].v = saved[k][1] ELSE TRUE]_vars
Emit == n = Depth => PrintT(<<"SCN", ToJson([kind |-> kind, h |-> h])>>)
=============================================================================
