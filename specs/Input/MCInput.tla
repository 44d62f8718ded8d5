------------------------------- MODULE MCInput -------------------------------
(* All small documents over two includable files, and all ways of rejecting an element. *)
EXTENDS Input, Json
CONSTANTS MaxTop, Full
VARIABLES c, d, seen, rej, ret
vars == <<c, d, seen, rej, ret>>
N(n, a, l) == [n |-> n, a |-> a, t |-> "", c |-> l]
T(t) == [n |-> "", a |-> <<>>, t |-> t, c |-> <<>>]
A(k, v) == [k |-> k, v |-> v]
Inc(f) == N("include", <<>>, <<T(f)>>)
Leaf == {N("geometry", <<>>, <<>>), N("discretization", <<A("type", "lagrange")>>, <<>>), N("b", <<>>, <<T("t")>>)} \cup
        (IF Full THEN {N("eigensolver", <<>>, <<N("nev", <<>>, <<T("7")>>)>>), N("postprocessing", <<>>, <<N("function", <<>>, <<T("1")>>)>>)} ELSE {})
Branch == {N("a", <<>>, <<Inc("f1"), T("t"), Inc("f2")>>)}
Node == Leaf \cup Branch \cup {Inc("f1"), Inc("f2")}
Sub == {Bad} \cup {Good(x) : x \in {N("geometry", <<>>, <<>>), N("b", <<>>, <<N("p", <<>>, <<>>), T("u")>>), N("a", <<>>, <<T("t"), Inc("f2")>>), Inc("f2")}}
Sub2 == {Bad} \cup {Good(x) : x \in {N("discretization", <<A("type", "spectral")>>, <<>>), N("b", <<>>, <<>>), N("a", <<>>, <<Inc("f1")>>)}}
Docs == {N("simulation", <<>>, s) : s \in UNION {[1..k -> Node] : k \in 0..MaxTop}}
F(f, x) == [f |-> f, ok |-> x.ok, x |-> x.x]
D(s) == [s |-> s, d |-> TRUE]
Clis == {<<>>, <<D("-spec"), D("-nev"), [s |-> "3", d |-> FALSE]>>}
Prios == {<<"console", "discretization", "geometry">>, <<"b">>}
Init == /\ \E x \in Docs, y \in Sub, z \in Sub2, l \in Clis, p \in Prios :
             c = [files |-> <<F("f1", y), F("f2", z), F("m", Good(x))>>, main |-> "m", prio |-> p, cli |-> l, thr |-> "8"]
        /\ d = New(c) /\ seen = <<>> /\ rej = 0 /\ ret = FALSE
Start == d.pc = "idle" /\ ~ret /\ d' = Read(c, d) /\ UNCHANGED <<c, seen, rej, ret>>
Offer(r) == /\ d.pc = "parse" /\ seen' = Append(seen, Head(d.todo)) /\ d' = Take(c, d, r) /\ rej' = (IF r THEN rej ELSE Len(seen) + 1) /\ UNCHANGED <<c, ret>>
            /\ (~r => ~Rejected(Head(d.todo)))
Return == d.pc = "done" /\ d' = Finish(c, d) /\ ret' = TRUE /\ UNCHANGED <<c, seen, rej>>
Next == Start \/ Offer(TRUE) \/ Offer(FALSE) \/ Return
Spec == Init /\ [][Next]_vars

(* The contents by another definition: a document is the text of its tags; inclusion replaces a tag by the text of the file. *)
RECURSIVE Tags(_, _), TagsOf(_, _, _)
TagsOf(l, k, i) == IF i > Len(l) THEN <<>> ELSE Tags(l[i], k) \o TagsOf(l, k, i + 1)
Tags(x, k) == IF x.n = "" THEN << <<"t", x.t>> >>
              ELSE IF x.n = "include" THEN IF k = 0 THEN << <<"loop", "">> >> ELSE LET f == FileOf(c, Text(x)) IN IF f.ok THEN Tags(f.x, k - 1) ELSE << <<"lost", "">> >>
              ELSE << <<"<", x.n>> >> \o TagsOf(x.c, k, 1) \o << <<">", x.n>> >>
RECURSIVE Has(_, _)
Has(s, i) == i <= Len(s) /\ (s[i][1] \in {"loop", "lost"} \/ Has(s, i + 1))
Main == FileOf(c, "m").x
Whole == TLCEval(TagsOf(Main.c, MaxDepth, 1))
\* loading fails when something is missing or endless, and never otherwise
Found == d.pc = "done" /\ seen = <<>> => (d.ok <=> ~Has(Whole, 1))
\* unless rejected, everything is offered exactly once
RECURSIVE Count(_, _, _)
Count(s, x, i) == IF i > Len(s) THEN 0 ELSE (IF s[i] = x THEN 1 ELSE 0) + Count(s, x, i + 1)
Once == ret /\ d.ok => LET o == TagsOf(seen, 0, 1) w == Whole IN Len(o) = Len(w) /\ \A j \in 1..Len(w) : Count(o, w[j], 1) = Count(w, w[j], 1)
\* in document order, but for the priority elements
Ordered == ret /\ d.ok => LET S == SelectSeq(seen, LAMBDA x : \A j \in 1..Len(c.prio) : x.n # c.prio[j]) IN
             LET l == Document(c).x.c IN S = SelectSeq(l, LAMBDA x : \A j \in 1..Len(c.prio) : x.n # c.prio[j])
Prior == \A i, j \in 1..Len(seen) : i < j /\ (\E k \in 1..Len(c.prio) : seen[j].n = c.prio[k]) => (\E k \in 1..Len(c.prio) : seen[i].n = c.prio[k]) \/ (\E k \in 1..(j - 1) : seen[k].n = seen[j].n)
\* a rejected element is the last one, and is reported
Reported == ret => (rej > 0 => ~d.ok /\ rej = Len(seen))
\* the command-line has the last word, also when the geometry is created
Overrides == ret => Cli(d.opt, c.cli, 1) = d.opt
Geometry == d.pc = "parse" /\ Head(d.todo).n = "geometry" => Cli(d.opt, c.cli, 1).discr = d.opt.discr
Emit == ret => PrintT(<<"SCN", ToJson([c |-> c, r |-> rej])>>)
=============================================================================
