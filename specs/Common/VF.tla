------------------------------- MODULE VF -------------------------------
(* Shared by all trace specifications: the recorded traces and the verdicts. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Done(t) == PrintT(<<"DONE", t>>)
\* a deterministic action was explained, but with another result
Mismatch(t, i, observed, specified) ==
  PrintT("MISMATCH|" \o ToString(t) \o "|step " \o ToString(i) \o ": observed " \o ToString(observed)
         \o " where the specification has " \o ToString(specified)) /\ FALSE
=============================================================================
