------------------------------ MODULE TraceHB ------------------------------
(* Recorded executions, together with their atomic operations, which may have read earlier values as the memory model
   allows.  The log is a total order of the events, but it is not the order in which the threads know of each other, so
   only rules which do not refer to the real-time order of calls of different threads are demanded here.             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

O == INSTANCE Obs
H == INSTANCE HB

VARIABLES tid, pos, o, h
vars == <<tid, pos, o, h>>

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ o = O!Init(Traces[tid].c)
        /\ h = H!Init(Traces[tid].c)

Next == /\ pos < Len(Traces[tid].e)
        /\ pos' = pos + 1
        /\ LET e == Traces[tid].e[pos + 1] IN
             IF e.k = "a" THEN /\ o' = o
                               /\ h' = H!Step(Traces[tid].c, h, e)
             ELSE /\ o' = O!Step(Traces[tid].c, o, e)
                  /\ h' = H!Step(Traces[tid].c, h, e)
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Free == {"wild", "dup", "lost", "beyond", "hang", "crash", "panic", "twice", "never", "garbage", "doublefree", "leak", "layout",
         "fewer", "empty", "toolong", "remainder", "source", "fold", "idx"}
CleanW(p) == \A x \in o.v : x[1] # p \/ x[2] \notin Free

\* the machinery: the recorded values obey the modification orders
Coherent == "incoherent" \notin h.v
\* no data race on the wrapped iterator
RaceFree == "race" \notin h.v
Exclusive == "overlap" \notin h.v

C01 == CleanW("C01")
C02 == CleanW("C02")
C03 == CleanW("C03")
C05 == CleanW("C05")
C06 == CleanW("C06")
C07 == CleanW("C07")
C08 == CleanW("C08")
C09 == CleanW("C09")
C10 == CleanW("C10")
C12 == CleanW("C12")
C15 == CleanW("C15")
C18 == CleanW("C18")
C19 == CleanW("C19")
=============================================================================
