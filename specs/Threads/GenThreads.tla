----------------------------- MODULE GenThreads -----------------------------
(* All small structured meshes and call sequences, and all small unstructured meshes, as scenarios for the implementation. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Dirs
VARIABLES c, h
Calls == {<<"spn">>, <<"elm">>, <<"one">>, <<"str">>, <<"flt", <<0, 2, 3>>>>, <<"onl", <<1, 0>>>>, <<"stl", <<1>>>>}
Structured == {[kind |-> "s", n |-> n, p |-> p, thr |-> thr, dir |-> d] : n \in {<<a, b>> : a \in 1..N, b \in {1, 3, N}} \cup {<<2, 2, a>> : a \in 3..N} \cup {<<a, 1, 4>> : a \in {2, 4}}, p \in 1..2, thr \in {1, 2, 3}, d \in Dirs}
Lists == {<<0, 1>>, <<1, 2>>, <<2, 3, 0>>, <<0>>, <<3>>, <<1, 2, 4, 3>>}
Unstructured == {[kind |-> "u", elms |-> e, cpl |-> q, thr |-> thr] : e \in [1..3 -> Lists], q \in {<<>>, <<<<2, 4>>>>, <<<<1, 3>>, <<4, 3>>>>, <<<<2, 4>>, <<2, 1>>, <<3, 1>>>>}, thr \in {1, 2}}
UCalls == {<<"col", 0>>, <<"col", 1>>, <<"gen", 1>>, <<"off">>}
Init == c \in Structured \cup Unstructured /\ h = <<>>
Ok(o) == IF c.kind = "s" THEN (o[1] = "spn" => Len(h) < 3) /\ (h = <<>> => o[1] \in {"spn", "elm"}) ELSE TRUE
Next == UNCHANGED c /\ Len(h) < 2 /\ \E o \in (IF c.kind = "s" THEN Calls ELSE UCalls) : Ok(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<c, h>>
Emit == Len(h) = 2 => PrintT(<<"SCN", ToJson([c |-> c, h |-> h])>>)
=============================================================================
