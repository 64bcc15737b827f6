------------------------------- MODULE Trace -------------------------------
(* Executions recorded from the real crate are behaviours of the observer: every trace of the batch is replayed event by
   event, and the invariant of the property must hold in every state.                                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

O == INSTANCE Obs

VARIABLES tid, pos, o
vars == <<tid, pos, o>>

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ o = O!Init(Traces[tid].c)

Next == /\ pos < Len(Traces[tid].e)
        /\ pos' = pos + 1
        /\ o' = O!Step(Traces[tid].c, o, Traces[tid].e[pos + 1])
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

C01 == O!Clean(o, "C01")
C02 == O!Clean(o, "C02")
C03 == O!Clean(o, "C03")
C04 == O!Clean(o, "C04")
C05 == O!Clean(o, "C05")
C06 == O!Clean(o, "C06")
C07 == O!Clean(o, "C07")
C08 == O!Clean(o, "C08")
C09 == O!Clean(o, "C09")
C10 == O!Clean(o, "C10")
C11 == O!Clean(o, "C11")
C12 == O!Clean(o, "C12")
C13 == O!Clean(o, "C13")
C14 == O!Clean(o, "C14")
C15 == O!Clean(o, "C15")
C16 == O!Clean(o, "C16")
C17 == O!Clean(o, "C17")
C18 == O!Clean(o, "C18")
C19 == O!Clean(o, "C19")
=============================================================================
