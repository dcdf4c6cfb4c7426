------------------------------ MODULE TraceKit ------------------------------
(* Trace validation kit.  A file of traces (one JSON object per line, field   *)
(* "ev" = sequence of events) recorded from the real code is replayed against *)
(* the specification: every trace is an initial state; a trace is accepted    *)
(* iff some behaviour of the specification consumes all of its events.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TKTraces == ndJsonDeserialize(IOEnv.TRACES)
TKN == Len(TKTraces)

VARIABLES tid, l

TKInit == tid \in 1..TKN /\ l = 1
More   == l <= Len(TKTraces[tid].ev)
Ev     == TKTraces[tid].ev[l]
Adv    == l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED <<tid, l>>

ASSUME \A t \in 1..TKN : TLCSet(t, 0)
KMark == IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE

(* Every trace that was not consumed completely is reported with the number   *)
(* of the first event no behaviour could match.                               *)
KPost == \A t \in 1..TKN :
            \/ TLCGet(t) = Len(TKTraces[t].ev) + 1
            \/ PrintT(<<"BAD", t, TLCGet(t)>>)
=============================================================================
