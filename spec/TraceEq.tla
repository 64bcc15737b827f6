------------------------------ MODULE TraceEq ------------------------------
(* Two builds of the crate and its client, a (debug assertions, overflow checks, preconditions of the standard library checked)
   and b (optimized, none of these), perform the same operations under the same schedule.

   Each is a behaviour over observations; the builds are equivalent iff they refine each other.  The operations are
   deterministic once the schedule is fixed, so refinement in both directions is equality of the observations, step by
   step.  An observation of build a which says that the process died is never allowed, even if build b dies as well. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, same
vars == <<tid, pos, same>>

N == LET x == Len(Traces[tid].a) y == Len(Traces[tid].b) IN IF x > y THEN x ELSE y

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ same = TRUE

(* observations are opaque; "crash" and "layout" mark those which no build may show *)
Obs(s, k) == IF k \in DOMAIN s THEN s[k] ELSE [x |-> "nothing", bad |-> 0]

Next == /\ pos < N
        /\ pos' = pos + 1
        /\ LET x == Obs(Traces[tid].a, pos + 1)
               y == Obs(Traces[tid].b, pos + 1)
           IN same' = (same /\ x.x = y.x /\ x.bad = 0 /\ y.bad = 0)
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Equivalent == same
=============================================================================
