------------------------------ MODULE MCSolver ------------------------------
(* All small scripts of residuals and tangents, for all kinds of set-ups, and every event which may fail. *)
EXTENDS Solver
CONSTANTS Steps, Length, Forces, Kinds
VARIABLES c, st, w, d0, n
vars == <<c, st, w, d0, n>>
Entries == {[d |-> 1, e |-> e, sg |-> 1, k |-> 0] : e \in Forces \cup {ZERO, NAN, 0 - 4, 0 - 1}} \cup {[d |-> 2, e |-> 0, sg |-> 0 - 1, k |-> 1], [d |-> 1, e |-> 1, sg |-> 1, k |-> NONE]}
Scripts == [1..Length -> Entries]
Configs == {x \in [kind : Kinds, norm : {"none", "upt", "res", "dis", "ene"}, all : BOOLEAN, ini : {FALSE}, maxit : {1, 2, 5}, maxIncr : {0, 2}, nupdat : {0, 1, 20},
                   rt : {3}, at : {ZERO, 0 - 2}, dl : {NAN - 1, 2}, eta : {NONE}] :
              /\ (x.norm \in {"none", "upt"} => x.kind = "N" /\ x.maxit = 5 /\ x.maxIncr = 0 /\ x.nupdat = 1 /\ x.at = ZERO /\ x.dl = 2 /\ x.all)
              /\ (x.dl = 2 => x.maxIncr = 2) /\ (x.maxit = 1 => x.nupdat = 1 /\ x.at = ZERO)}
MCInit == c \in Configs /\ st = New /\ w = Work(New, <<>>, 0) /\ d0 = <<0, 0>> /\ n = 0
MCNext == /\ n < Steps /\ n' = n + 1 /\ c' = c
          /\ \E s \in Scripts : \E fk \in {0, 1, 4, 6} : w' = TLCEval(SolveStep(c, st, 3, s, fk, FALSE))
          /\ st' = TLCEval(Rest(w')) /\ d0' = st.d
MCSpec == MCInit /\ [][MCNext]_vars

Asm == SelectSeq(w.ev, LAMBDA x : x[1] = "asm")
Updates == Cardinality({i \in 1..Len(w.ev) : w.ev[i][1] = "upd"})
Of(i) == w.script[IF i > Len(w.script) THEN Len(w.script) ELSE i]
\* the tangent in effect for the solve number i, as the requests tell
RECURSIVE Stiff(_)
Stiff(i) == IF Asm[i][2] THEN Of(i).k ELSE IF i = 1 THEN NONE ELSE Stiff(i - 1)
Whole == \A i \in 1..Len(Asm) : Of(i).e \notin {NAN, INF} /\ (i > 1 \/ Asm[1][2])
RECURSIVE Total(_, _)
Total(d, i) == IF i = 0 THEN 0 ELSE Total(d, i - 1) + (IF Of(i).d # d \/ Of(i).e = ZERO THEN 0 ELSE Of(i).sg * P2(12 + Of(i).e - Stiff(i)))

Started == n > 0
\* convergence is never reported without evidence, and an accepted step contains each increment once
Accepted == (Started /\ w.out = "conv") =>
  /\ w.ev[Len(w.ev)][1] = "upd"
  /\ Linear(c) \/ (w.iter = 0 /\ w.l.e = ZERO) \/ (Less(w.norm, w.tol) /\ (w.iter > 0 \/ c.all))
EachOnce == (Started /\ w.out = "conv" /\ Whole /\ \A i \in 1..Len(Asm) : Asm[i][2]) =>
  \A k \in 1..2 : w.d[k] = (IF Linear(c) THEN 0 ELSE d0[k]) + Total(k, Len(Asm))
\* a rejection has a reason
Rejected == (Started /\ w.out = "div") =>
  \/ w.iter > c.maxit \/ w.l.e = NAN
  \/ w.ninc > c.maxIncr \/ ~LessEq(w.norm, c.dl)
Failed == (Started /\ w.out = "fail") <=> (Started /\ (Len(w.ev) = w.fk \/ w.K = NONE))
\* the effort is bounded
Bounded == Started => w.iter <= c.maxit + 1 /\ Len(Asm) <= c.maxit + 2 /\ w.used <= Len(Asm)
Tangents == Started => \A i \in 1..Len(Asm) : Asm[i][2] => Asm[i][5] <= c.nupdat \/ (c.kind = "N" /\ Asm[i][5] = 0)
\* a tangent is always established before it is used
NeverStale == (Started /\ Len(Asm) > 0 /\ n = 1) => Asm[1][2]
Progress == (Started /\ n = 1) => (w.first <=> w.out # "conv")
\* each iteration sees the latest configuration
Latest == Started => \A i \in 1..Len(w.ev) : \A j \in (i + 1)..Len(w.ev) :
            (w.ev[i][1] = "upd" /\ w.ev[j][1] = "asm" /\ \A x \in (i + 1)..(j - 1) : w.ev[x][1] # "upd") => w.ev[j][6] = w.ev[i][2]
=============================================================================
