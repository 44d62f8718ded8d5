------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* Control of a running simulation through a named pipe. Messages wait in  *)
(* the pipe until it is polled; each command of a message is then given to *)
(* the one registered for its context, if any, in the order they were sent.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pipe, reg, open, got     \* got: everything delivered, <<receiver, context, value>>
Range(q) == {q[j] : j \in 1..Len(q)}
\* message: [good, cmds]; command: <<context, value>>
RECURSIVE Commands(_)
Commands(q) == IF q = <<>> THEN <<>> ELSE Head(q).cmds \o Commands(Tail(q))
\* the first one registered for a context receives its commands
Receiver(x) == reg[CHOOSE k \in 1..Len(reg) : reg[k][2] = x /\ \A m \in 1..(k - 1) : reg[m][2] # x][1]
Known(x) == \E k \in 1..Len(reg) : reg[k][2] = x
Delivered == LET q == SelectSeq(Commands(pipe), LAMBDA m : Known(m[1])) IN [k \in 1..Len(q) |-> <<Receiver(q[k][1]), q[k][1], q[k][2]>>]
Clean == \A k \in 1..Len(pipe) : pipe[k].good
\* a malformed message has no effect; what happens to others which were waiting with it is not prescribed
Allowed(d) == IF Clean THEN d = Delivered ELSE IF Len(pipe) = 1 THEN d = <<>> ELSE Len(d) <= Len(Commands(pipe)) /\ \A k \in 1..Len(d) : Known(d[k][2])
Empty == pipe = <<>> /\ reg = <<>> /\ open = FALSE /\ got = <<>>
Open == ~open /\ open' = TRUE /\ pipe' = <<>> /\ UNCHANGED <<reg, got>>
Close == open /\ open' = FALSE /\ pipe' = <<>> /\ reg' = <<>> /\ UNCHANGED got
Register(id, x) == reg' = Append(reg, <<id, x>>) /\ UNCHANGED <<pipe, open, got>>
Send(m) == open /\ pipe' = Append(pipe, m) /\ UNCHANGED <<reg, open, got>>
Poll(d) == /\ (IF open THEN Allowed(d) ELSE d = <<>>)
           /\ got' = got \o d /\ pipe' = <<>> /\ UNCHANGED <<reg, open>>
=============================================================================
