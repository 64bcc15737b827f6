-------------------------------- MODULE Linear --------------------------------
(* The concurrent iterator as an atomic object.  A pull takes effect at one instant: it takes the next min(n, what is left)
   positions.  skip_to_end takes effect at one instant: nothing is taken afterwards; what is left is either given up, or
   stays for a conversion into a sequential iterator.  A loop is a sequence of pulls, the last one of which takes nothing.

   Impl refines this module (MCImpl, property Linearizable): the implementations are linearizable.                       *)
EXTENDS Integers

CONSTANTS L, Threads
VARIABLES at,     \* positions taken so far
          stop,   \* skip_to_end took effect, and positions are left
          st      \* st[t]: state of the call of t, and its result: m positions beginning with lo

Loops == {"fe", "efe", "fold"}
Others == {"len", "more", "mkbuf"}
MinI(a, b) == IF a < b THEN a ELSE b

Idle == [pc |-> "idle", o |-> "none", n |-> 0, lo |-> 0, m |-> 0]
Init == at = 0 /\ stop = FALSE /\ st = [t \in Threads |-> Idle]

Set(t, r) == st' = [st EXCEPT ![t] = r]

Call(t) ==
  /\ st[t].pc = "idle"
  /\ Set(t, [pc |-> "called", o |-> st'[t].o, n |-> st'[t].n, lo |-> 0, m |-> 0])
  /\ UNCHANGED <<at, stop>>

M(t) == IF stop THEN 0 ELSE MinI(st[t].n, L - at)
Lo(t) == IF M(t) = 0 THEN 0 ELSE at
Result(t) == [pc |-> "idle", o |-> "none", n |-> 0, lo |-> Lo(t), m |-> M(t)]

Take(t) ==
  /\ st[t].pc = "called" /\ st[t].o \notin Others \cup {"skip"}
  /\ at' = at + M(t) /\ stop' = (stop /\ at' < L)
  /\ \/ Set(t, [st[t] EXCEPT !.pc = "taken", !.lo = Lo(t), !.m = M(t)]) /\ (st[t].o \in Loops => M(t) = 0)
     \/ Set(t, Result(t)) /\ (st[t].o \in Loops => M(t) = 0)                                      \* and return at once
     \/ Set(t, [st[t] EXCEPT !.lo = Lo(t), !.m = M(t)]) /\ st[t].o \in Loops /\ M(t) > 0           \* the loop goes on

Skip(t) ==
  /\ st[t].pc = "called" /\ st[t].o = "skip"
  /\ Set(t, Idle)
  /\ \/ at' = L /\ stop' = FALSE
     \/ at' = at /\ stop' = (at < L)

Other(t) == st[t].pc = "called" /\ st[t].o \in Others /\ Set(t, Idle) /\ UNCHANGED <<at, stop>>
Return(t) == st[t].pc = "taken" /\ Set(t, [Idle EXCEPT !.lo = st[t].lo, !.m = st[t].m]) /\ UNCHANGED <<at, stop>>

\* a call which is answered without taking effect anywhere else
Quick(t) ==
  /\ st[t].pc = "idle" /\ UNCHANGED <<at, stop>>
  /\ Set(t, Idle)

Next == \E t \in Threads : Call(t) \/ Take(t) \/ Skip(t) \/ Other(t) \/ Return(t) \/ Quick(t)
Spec == Init /\ [][Next]_<<at, stop, st>>
=============================================================================
