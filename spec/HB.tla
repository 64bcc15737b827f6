--------------------------------- MODULE HB ---------------------------------
(* Happens-before, in the sense of the memory model of the language (C++20 / Rust), over the atomic operations which an
   execution performed, and the accesses to the wrapped iterator which it has to order.

   Every atomic operation is an event with the location l, its kind o (load, store, rmw, fence), its ordering r and the
   position x, in the modification order of the location, of the message (store) which it read or wrote.  A message carries
   the clock which a reader acquires: the clock of the writer if the store was a release, the clock of the last release
   fence of the writer otherwise; a read-modify-write continues the release sequence of the message it replaces.  Clocks
   are vectors: one component per thread, thread 0 is the controlling thread which forks and joins the others.

   Accesses to the wrapped iterator:  we .. wx  (its next is executing),  wr  (a shared access such as size_hint).

   Race freedom: every access happens-after every earlier conflicting one, and none overlaps with an exclusive one.

   The module is constant-level like Obs: Init(c), Step(c, h, e).                                                  *)
EXTENDS Integers, Sequences

Lub(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Acq(r) == r \in {"acq", "ar", "sc"}
Rel(r) == r \in {"rel", "ar", "sc"}

Zero(c) == [t \in 0..c.T |-> 0]

Init(c) == [V  |-> [t \in 0..c.T |-> [u \in 0..c.T |-> IF u = t THEN 1 ELSE 0]],   \* clock of the thread
            P  |-> [t \in 0..c.T |-> Zero(c)],       \* read by relaxed loads, awaits an acquire fence
            R  |-> [t \in 0..c.T |-> Zero(c)],       \* at the last release fence
            M  |-> <<>>,                             \* location -> messages in modification order (message x is M[l][x + 1])
            seen |-> [t \in 0..c.T |-> <<>>],        \* location -> newest message which the thread knows
            W  |-> Zero(c),                          \* last exclusive access of every thread
            N  |-> Zero(c),                          \* last shared access of every thread
            inw |-> -1,                              \* thread inside of next
            v  |-> {}]

Msgs(c, h, l) == IF l \in DOMAIN h.M THEN h.M[l] ELSE <<Zero(c)>>
Known(h, t, l) == IF l \in DOMAIN h.seen[t] THEN h.seen[t][l] ELSE 0
Put(f, k, x) == [j \in (DOMAIN f) \cup {k} |-> IF j = k THEN x ELSE f[j]]


\* messages which were written by operations that the hooks do not see (exclusive access through get_mut) know nothing
Pad(c, m, n) == [k \in 1..n |-> IF k \in DOMAIN m THEN m[k] ELSE Zero(c)]

Atomic(c, h, e) ==
  LET t == e.t
      l == e.l
      old0 == Msgs(c, h, l)
      need == IF e.o = "load" THEN e.x + 1 ELSE e.x
      m == IF need > Len(old0) THEN Pad(c, old0, need) ELSE old0
      coherent == e.x >= Known(h, t, l) /\ (e.o \in {"store", "rmw"} => e.x = Len(m))
      bad == IF coherent THEN {} ELSE {"incoherent"}
  IN CASE e.o = "fence" ->
            LET v1 == IF Acq(e.r) THEN Lub(h.V[t], h.P[t]) ELSE h.V[t]
            IN [h EXCEPT !.V[t] = v1, !.R[t] = IF Rel(e.r) THEN v1 ELSE @]
       [] e.o = "load" ->
            [h EXCEPT !.V[t] = IF Acq(e.r) THEN Lub(@, m[e.x + 1]) ELSE @,
                      !.P[t] = Lub(@, m[e.x + 1]),
                      !.M = Put(@, l, m),
                      !.seen[t] = Put(@, l, e.x), !.v = @ \cup bad]
       [] e.o = "store" ->
            [h EXCEPT !.M = Put(@, l, Append(m, IF Rel(e.r) THEN h.V[t] ELSE h.R[t])),
                      !.seen[t] = Put(@, l, e.x), !.v = @ \cup bad]
       [] e.o = "rmw" ->
            LET old == m[Len(m)]
                v1 == IF Acq(e.r) THEN Lub(h.V[t], old) ELSE h.V[t]
            IN [h EXCEPT !.V[t] = v1, !.P[t] = Lub(@, old),
                         !.M = Put(@, l, Append(m, Lub(old, IF Rel(e.r) THEN v1 ELSE h.R[t]))),
                         !.seen[t] = Put(@, l, e.x), !.v = @ \cup bad]

Before(h, t, acc) == \A u \in DOMAIN acc : u = t \/ acc[u] <= h.V[t][u]

\* an access is an epoch of its own: what the thread has released before does not cover it
Tick(h, t) == [h EXCEPT !.V[t][t] = @ + 1]

Enter(h0, t) ==
  LET h == Tick(h0, t)
  IN [h EXCEPT !.W[t] = h.V[t][t], !.inw = t,
               !.v = @ \cup (IF Before(h, t, h.W) /\ Before(h, t, h.N) THEN {} ELSE {"race"})
                       \cup (IF h.inw = -1 THEN {} ELSE {"overlap"})]

\* the end of next is part of the access: it has to happen before later accesses
Exit(h0, t) ==
  LET h == Tick(h0, t)
  IN [h EXCEPT !.W[t] = h.V[t][t], !.inw = -1]

Read(h0, t) ==
  LET h == Tick(h0, t)
  IN [h EXCEPT !.N[t] = h.V[t][t],
               !.v = @ \cup (IF Before(h, t, h.W) THEN {} ELSE {"race"})
                       \cup (IF h.inw \in {-1, t} THEN {} ELSE {"overlap"})]

RECURSIVE LubAll(_, _, _)
LubAll(h, c, t) == IF t = 0 THEN h.V[0] ELSE Lub(h.V[t], LubAll(h, c, t - 1))

Step(c, h, e) ==
  CASE e.k = "a"  -> Atomic(c, h, e)
    [] e.k = "we" -> Enter(h, e.t)
    [] e.k = "wx" -> Exit(h, e.t)
    [] e.k = "wr" -> Read(h, e.t)
    [] e.k = "fork" -> [h EXCEPT !.V = [t \in DOMAIN @ |-> Lub(@[t], @[0])]]
    [] e.k = "join" -> [h EXCEPT !.V[0] = LubAll(h, c, c.T)]
    [] OTHER -> h
=============================================================================
