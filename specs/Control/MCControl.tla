----------------------------- MODULE MCControl -----------------------------
EXTENDS Control, Json
CONSTANTS Depth, Random
VARIABLES sent, h, n         \* sent: the commands sent while someone was registered for them
vars == <<pipe, reg, open, got, sent, h, n>>
Ctx == {"a", "b", "nobody"}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Msgs == {[good |-> TRUE, cmds |-> <<>>]} \cup {[good |-> TRUE, cmds |-> <<<<x, n>>>>] : x \in Ctx}
        \cup {[good |-> TRUE, cmds |-> <<<<x, n>>, <<y, n + 100>>>>] : x \in Ctx, y \in Ctx}
Log(op) == h' = IF Random THEN Append(h, op) ELSE h
Init == Empty /\ sent = <<>> /\ h = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ Open /\ UNCHANGED sent /\ Log(<<"open">>)
           \/ Random /\ Close /\ UNCHANGED sent /\ Log(<<"close">>)
           \/ \E id \in Pick(1..2), x \in Pick({"a", "b"}) : Len(reg) < 3 /\ pipe = <<>> /\ Register(id, x) /\ UNCHANGED sent /\ Log(<<"reg", id, x>>)
           \/ \E m \in Pick(Msgs), pad \in Pick(IF Random THEN {0, 0, 0, 100, 1900, 2040, 2048, 2100, 5000} ELSE {0}) :
                Send(m) /\ sent' = sent \o SelectSeq(m.cmds, LAMBDA q : Known(q[1])) /\ Log(<<"send", pad, m.cmds>>)
           \/ Poll(IF open THEN Delivered ELSE <<>>) /\ UNCHANGED sent /\ Log(<<"poll">>)
Spec == Init /\ [][Next]_vars
\* exactly once, in order, to a receiver registered for the context
ExactlyOnce == LET g == [k \in 1..Len(got) |-> <<got[k][2], got[k][3]>>]
                   w == SelectSeq(Commands(pipe), LAMBDA q : Known(q[1])) IN g \o w = sent
Addressed == \A k \in 1..Len(got) : \E r \in 1..Len(reg) : reg[r] = <<got[k][1], got[k][2]>>
Emit == IF Random /\ n = Depth THEN PrintT(<<"SCN", ToJson([h |-> h])>>) ELSE TRUE
=============================================================================
