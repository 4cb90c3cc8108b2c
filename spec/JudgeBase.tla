------------------------------ MODULE JudgeBase ------------------------------
(***************************************************************************)
(* Trace validation of independent observations.  The trace (one JSON      *)
(* record per line, file named by environment variable VF_TRACE) holds one *)
(* observed call of the implementation per line: its arguments and its     *)
(* outcome.  `Verdict` is the specification's judgement of one call: ""    *)
(* when the outcome is one the specification allows, otherwise the name of *)
(* the violated clause.  Every line is a state; the verdict is total, so a *)
(* mismatch is reported and the rest of the trace is still judged.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
CONSTANT Verdict(_)
VARIABLE i
Events == ndJsonDeserialize(IOEnv.VF_TRACE)
Stride == 64
JInit == i \in 1 .. (IF Len(Events) < Stride THEN Len(Events) ELSE Stride)
JNext == i + Stride <= Len(Events) /\ i' = i + Stride
Judged == LET v == Verdict(Events[i]) IN v = "" \/ PrintT("VFAIL" \o ToJson([n |-> i, what |-> v]))   \* (one line, however long)

\* The most common verdict: the outcome must be the one the specification computes.
Same(e, expected) == IF e.r = expected THEN "" ELSE e.op \o ": the specification says " \o expected
OneOf(e, allowed) == IF e.r \in allowed THEN "" ELSE e.op \o ": not an allowed outcome"
Require(e, holds, clause) == IF holds THEN "" ELSE e.op \o ": " \o clause
=============================================================================
