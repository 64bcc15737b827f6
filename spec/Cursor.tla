------------------------------- MODULE Cursor -------------------------------
(* The abstract concurrent iterator: one sequential cursor over the source 0 .. L-1.

   A pull of n elements takes the next min(n, what is left) positions at one instant between its call and its return; a skip
   ends the iteration for all pulls which take effect later; a query reads what is left.  Clients are arbitrary: every
   thread calls anything, in any order, at most Calls times.

   The observer (Obs) watches the events.  That it never objects to any behaviour of this machine (Quiet) shows that the
   rules which decide about executions of the real crate do not demand more than the properties: a linearizable cursor
   satisfies all of them, whatever the schedule.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS L, Threads, Calls, Ops, Exact

O == INSTANCE Obs

VARIABLES at,       \* the next position
          stop,     \* skip_to_end has taken effect
          th,       \* the threads
          obs,      \* the observer
          phase     \* "run", then "over"
vars == <<at, stop, th, obs, phase>>

\* the configuration as it is recorded by the harness
Conf == [L |-> L, known |-> Exact, hx |-> Exact, own |-> 1, bor |-> 0, zst |-> 0, ad |-> "none", gen |-> 1, T |-> Cardinality(Threads),
         twins |-> 1, drops |-> 1, extra |-> 0]

RECURSIVE Feed(_, _)
Feed(ob, es) == IF es = <<>> THEN ob ELSE Feed(O!Step(Conf, ob, Head(es)), Tail(es))

Idle(k, nch, bufs) == [pc |-> "idle", o |-> "none", n |-> 0, lo |-> 0, m |-> 0, left |-> k, nch |-> nch, got |-> <<>>]

Init == /\ at = 0 /\ stop = FALSE /\ phase = "run"
        /\ th = [t \in Threads |-> Idle(Calls, 0, 0)]
        /\ obs = O!Init(Conf)

Singles == {"next", "nid", "val", "iav"}
Loops == {"fe", "efe", "fold"}
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Call(t, op) ==
  /\ phase = "run" /\ th[t].pc = "idle" /\ th[t].left > 0
  /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "called", !.o = op.o, !.n = op.n, !.left = @ - 1, !.got = <<>>]]
  /\ obs' = Feed(obs, <<[k |-> "call", t |-> t, i |-> 0, o |-> op.o, n |-> op.n]>>)
  /\ UNCHANGED <<at, stop, phase>>

\* the pull takes effect
Take(t) ==
  LET n == th[t].n
      m == IF stop THEN 0 ELSE MinI(n, L - at)
  IN /\ th[t].pc = "called" /\ th[t].o \in Singles \cup Loops \cup {"chunk", "buf"}
     /\ th' = [th EXCEPT ![t].pc = "taken", ![t].lo = at, ![t].m = m]
     /\ at' = at + m
     /\ UNCHANGED <<stop, obs, phase>>

Skip(t) ==
  /\ th[t].pc = "called" /\ th[t].o = "skip"
  /\ stop' = TRUE
  /\ th' = [th EXCEPT ![t].pc = "taken"]
  /\ UNCHANGED <<at, obs, phase>>

Look(t) ==
  /\ th[t].pc = "called" /\ th[t].o \in {"len", "more"}
  /\ th' = [th EXCEPT ![t].pc = "taken", ![t].m = IF stop THEN 0 ELSE L - at]
  /\ UNCHANGED <<at, stop, obs, phase>>

One(t, p, d) == [k |-> "ret", t |-> t, r |-> "one", x |-> IF d = 1 THEN p ELSE -1, p |-> p, g |-> 0, a |-> 1, d |-> d]
End(t) == [k |-> "ret", t |-> t, r |-> "end"]

Return(t) ==
  LET h == th[t]
      back == [th EXCEPT ![t] = [Idle(h.left, h.nch, 0) EXCEPT !.nch = h.nch + (IF h.o \in {"chunk", "buf"} /\ h.m > 0 THEN 1 ELSE 0)]]
      c == t * 1000 + h.nch
      ret == CASE h.o \in Singles -> IF h.m = 0 THEN <<End(t)>> ELSE <<One(t, h.lo, IF h.o \in {"nid", "iav"} THEN 1 ELSE 0)>>
               [] h.o \in {"chunk", "buf"} ->
                    IF h.m = 0 THEN <<End(t)>>
                    ELSE <<[k |-> "ret", t |-> t, r |-> "ch", c |-> c, x |-> h.lo, m |-> h.m, h |-> 1],
                           [k |-> "cons", t |-> t, c |-> c, sk |-> 0, ps |-> [q \in 1..h.m |-> h.lo + q - 1], ls |-> [q \in 1..(h.m + 1) |-> h.m - q + 1],
                            z |-> 1, a |-> 1, g |-> 0, h |-> 1, f |-> 0, j |-> 0]>>
               [] h.o = "skip" -> <<[k |-> "ret", t |-> t, r |-> "ok"]>>
               [] h.o = "len" -> <<[k |-> "ret", t |-> t, r |-> "len", y |-> Exact, m |-> IF Exact = 1 THEN h.m ELSE 0]>>
               [] h.o = "more" -> <<[k |-> "ret", t |-> t, r |-> "more",
                                     y |-> IF Exact = 0 THEN 0 ELSE IF h.m = 0 THEN 2 ELSE 1, m |-> IF Exact = 1 THEN h.m ELSE 0]>>
  IN /\ h.pc = "taken" /\ h.o \notin Loops
     /\ Exact = 0 => h.o \notin {"len", "more"}
     /\ obs' = Feed(obs, ret)
     /\ th' = back
     /\ UNCHANGED <<at, stop, phase>>

\* the loops deliver what they have taken element by element, then take again
Item(t) ==
  LET h == th[t]
      d == IF h.o = "efe" THEN 1 ELSE 0
  IN /\ h.pc = "taken" /\ h.o \in Loops
     /\ IF h.m > 0
        THEN /\ obs' = Feed(obs, <<[k |-> "item", t |-> t, i |-> 0, x |-> IF d = 1 THEN h.lo ELSE -1, p |-> h.lo, g |-> 0, a |-> 1, d |-> d]>>)
             /\ th' = [th EXCEPT ![t].lo = @ + 1, ![t].m = @ - 1, ![t].got = Append(@, h.lo), ![t].pc = IF h.m = 1 THEN "called" ELSE @]
        ELSE /\ obs' = Feed(obs, <<IF h.o = "fold" THEN [k |-> "ret", t |-> t, r |-> "fold", ps |-> h.got]
                               ELSE [k |-> "ret", t |-> t, r |-> "ok"]>>)
             /\ th' = [th EXCEPT ![t] = Idle(h.left, h.nch, 0)]
     /\ UNCHANGED <<at, stop, phase>>

\* all threads are joined; the rest is taken back, or dropped
Over ==
  /\ phase = "run" /\ \A t \in Threads : th[t].pc = "idle"
  /\ phase' = "over"
  /\ \E drop \in BOOLEAN :
       LET rest == [q \in 1..(L - at) |-> at + q - 1]
           out == IF drop THEN 0..(at - 1) ELSE 0..(L - 1)
           fin == [k |-> "fin", z |-> 0, md |-> [q \in 1..L |-> 1], mv |-> [q \in 1..L |-> IF q - 1 \in out THEN 1 ELSE 0],
                   dr |-> [q \in 1..L |-> IF q - 1 \in out THEN 0 ELSE 1], cl |-> <<>>, cg |-> <<>>, gb |-> 0, lb |-> 0, ly |-> 0,
                   tb |-> 0, df |-> 0, bl |-> 0]
           do == IF drop THEN "drop" ELSE "seq"
           ret == IF drop THEN [k |-> "ret", t |-> 0, r |-> "ok"]
                  ELSE [k |-> "ret", t |-> 0, r |-> "seq", ps |-> rest, lo |-> L - at, uy |-> 1, up |-> L - at, z |-> 1, a |-> 1, g |-> 0]
       IN obs' = Feed(obs, <<[k |-> "join"], [k |-> "call", t |-> 0, i |-> 0, o |-> do, n |-> 0], ret, fin>>)
  /\ UNCHANGED <<at, stop, th>>

Step(t) == (\E op \in Ops : Call(t, op)) \/ Take(t) \/ Skip(t) \/ Look(t) \/ Return(t) \/ Item(t)
Next == Over \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Quiet == obs.v = {}
=============================================================================
