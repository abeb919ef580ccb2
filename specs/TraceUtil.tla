----------------------------- MODULE TraceUtil -----------------------------
(* Shared by all trace specifications.                                       *)
(* A trace file has one JSON object per line; every object is one recorded   *)
(* execution of the real code and has a field "ev", the sequence of events.  *)
(* TLC register k holds the furthest event position reached in trace k.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)

ASSUME \A k \in 1..NTraces : TLCSet(k, 0)

Mark(k, l) == IF l > TLCGet(k) THEN TLCSet(k, l) ELSE TRUE

RejectedSet == { <<k, TLCGet(k)>> : k \in { j \in 1..NTraces : TLCGet(j) # Len(Traces[j].ev) + 1 } }

\* Evaluated once, after the state space has been explored.
Verdict == /\ PrintT("REJECTED " \o ToJson(RejectedSet))
           /\ RejectedSet = {}

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
