------------------------------- MODULE Ticket -------------------------------
(* Wrapped sequential iterators, for any length, any number of threads, any chunk sizes and any history, including skips and
   panics of the wrapped iterator: tickets are drawn from one counter, a second counter says whose turn it is, a flag says
   that the iteration is complete.

   Impl is the same design at the grain of the code, with the observer, for small constants; TLC checks that Impl refines
   this module (MCImpl, property Ticketed).  The safety properties are proved in TicketProof.   *)
EXTENDS Integers

CONSTANTS L,        \* number of elements which the wrapped iterator yields
          Max,      \* the largest index value
          Threads

ASSUME Sizes == L \in Nat /\ Max \in Nat /\ L < Max

VARIABLES rsv,      \* the counter of tickets: positions which have been reserved
          yld,      \* whose turn it is: positions which have been yielded
          done,     \* the iteration is complete
          src,      \* the wrapped iterator: elements which it has yielded
          none,     \* ... it has reported its end
          skip,     \* skip_to_end was called
          hurt,     \* the wrapped iterator has panicked
          st        \* st[t]: where the thread is, its ticket b, the number of elements n it asked for, and k which it has got
vars == <<rsv, yld, done, src, none, skip, hurt, st>>

MinI(a, b) == IF a < b THEN a ELSE b
Sat(x) == MinI(x, Max)

Pc == {"idle", "wait", "look", "check", "in", "end", "leave", "panic", "skip"}
Idle == [pc |-> "idle", b |-> 0, n |-> 1, k |-> 0]

Init == /\ rsv = 0 /\ yld = 0 /\ done = FALSE /\ src = 0 /\ none = FALSE /\ skip = FALSE /\ hurt = FALSE
        /\ st = [t \in Threads |-> Idle]

Goto(t, pc) == st' = [st EXCEPT ![t] = [@ EXCEPT !.pc = pc]]
Back(t) == st' = [st EXCEPT ![t] = Idle]

\* a ticket is drawn
Draw(t, n) ==
  /\ st[t].pc = "idle"
  /\ rsv' = Sat(rsv + n)
  /\ st' = [st EXCEPT ![t] = [pc |-> "wait", b |-> rsv, n |-> n, k |-> 0]]
  /\ UNCHANGED <<yld, done, src, none, skip, hurt>>

\* whose turn is it?
Mine(t) == st[t].pc = "wait" /\ st[t].b = yld /\ Goto(t, "check") /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>
Passed(t) == st[t].pc = "wait" /\ st[t].b < yld /\ Back(t) /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>
Later(t) == st[t].pc = "wait" /\ st[t].b > yld /\ Goto(t, "look") /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>
Look(t) == st[t].pc = "look" /\ (IF done THEN Back(t) ELSE Goto(t, "wait")) /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>
Check(t) == st[t].pc = "check" /\ (IF done THEN Back(t) ELSE Goto(t, "in")) /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>

\* next() of the wrapped iterator is executing, and returns an element, returns None, or panics
Yield(t) ==
  /\ st[t].pc = "in" /\ src < L
  /\ src' = src + 1
  /\ st' = [st EXCEPT ![t] = [@ EXCEPT !.k = @ + 1, !.pc = IF st[t].k + 1 < st[t].n THEN "in" ELSE "leave"]]
  /\ UNCHANGED <<rsv, yld, done, none, skip, hurt>>
NoMore(t) ==
  /\ st[t].pc = "in" /\ src = L
  /\ none' = TRUE
  /\ Goto(t, "end")
  /\ UNCHANGED <<rsv, yld, done, src, skip, hurt>>
Panic(t) ==
  /\ st[t].pc = "in"
  /\ hurt' = TRUE
  /\ Goto(t, "panic")
  /\ UNCHANGED <<rsv, yld, done, src, none, skip>>

\* the iteration is completed
End(t) ==
  /\ st[t].pc = "end"
  /\ done' = TRUE
  /\ Goto(t, "leave") \/ (st[t].k = 0 /\ Back(t))
  /\ UNCHANGED <<rsv, yld, src, none, skip, hurt>>
Guard(t) ==
  /\ st[t].pc = "panic"
  /\ done' = TRUE
  /\ Back(t)
  /\ UNCHANGED <<rsv, yld, src, none, skip, hurt>>

\* the next ticket
Leave(t) ==
  /\ st[t].pc = "leave"
  /\ yld' = Sat(yld + st[t].n)
  /\ Back(t)
  /\ UNCHANGED <<rsv, done, src, none, skip, hurt>>

\* skip_to_end
Skip1(t) == st[t].pc = "idle" /\ rsv' = Max /\ skip' = TRUE /\ Goto(t, "skip") /\ UNCHANGED <<yld, done, src, none, hurt>>
Skip2(t) == st[t].pc = "skip" /\ done' = TRUE /\ Back(t) /\ UNCHANGED <<rsv, yld, src, none, skip, hurt>>

Own(t) ==  \/ Mine(t) \/ Passed(t) \/ Later(t) \/ Look(t) \/ Check(t)
           \/ Yield(t) \/ NoMore(t) \/ Panic(t) \/ End(t) \/ Guard(t) \/ Leave(t)
           \/ Skip1(t) \/ Skip2(t)
Next == \E t \in Threads : Own(t) \/ \E n \in 1..Max : Draw(t, n)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Critical(t) == st[t].pc \in {"in", "end", "leave", "panic"}
Holding(t) == st[t].pc \in {"wait", "look", "check"} \/ Critical(t)
E(t) == Sat(st[t].b + st[t].n)

TypeOK == /\ rsv \in 0..Max /\ yld \in 0..Max /\ done \in BOOLEAN /\ src \in 0..L /\ none \in BOOLEAN
          /\ skip \in BOOLEAN /\ hurt \in BOOLEAN
          /\ st \in [Threads -> [pc : Pc, b : 0..Max, n : 1..Max, k : 0..Max]]

\* one thread
One(t) == /\ Holding(t) => E(t) <= rsv
          /\ Critical(t) => st[t].b = yld /\ src = st[t].b + st[t].k /\ st[t].k <= st[t].n
          /\ st[t].pc \in {"wait", "look", "check"} => st[t].k = 0
          /\ st[t].pc = "check" => st[t].b = yld
          /\ st[t].pc \in {"wait", "look"} => st[t].b >= yld \/ done
          /\ st[t].pc = "leave" => st[t].k = st[t].n \/ (none /\ done)
          /\ st[t].pc = "in" => ~none /\ st[t].k < st[t].n
          /\ st[t].pc = "end" => none /\ src = L /\ st[t].k < st[t].n
          /\ st[t].pc = "panic" => hurt
          /\ st[t].pc = "skip" => skip
\* two threads: the positions which they have reserved do not overlap
Two(t, u) == Holding(t) /\ Holding(u) => E(t) <= st[u].b \/ E(u) <= st[t].b

Inv == /\ TypeOK
       /\ yld <= rsv
       /\ \A t \in Threads : One(t)
       /\ \A t, u \in Threads : t # u => Two(t, u)
       /\ (\A t \in Threads : ~Critical(t)) => src = yld \/ done
       /\ none => src = L /\ (done \/ \E t \in Threads : st[t].pc = "end")
       /\ done => none \/ skip \/ hurt
       /\ hurt => done \/ \E t \in Threads : st[t].pc = "panic"

\* C07: the wrapped iterator is used by one thread at a time; C05: not after it has reported its end
Exclusive == \A t, u \in Threads : t # u => ~(Critical(t) /\ Critical(u))
Fused == \A t \in Threads : st[t].pc = "in" => ~none
\* C02, C03, C04: what a thread gets are the positions from its ticket on, at most as many as it has asked for; fewer only at the end
Index == \A t \in Threads : Critical(t) => src - st[t].k = st[t].b /\ st[t].k <= st[t].n
Full == \A t \in Threads : st[t].pc = "leave" /\ st[t].k < st[t].n => none
\* C01: a thread finds that its turn has passed, or that the iteration is complete, only when everything has been delivered
\* (or the rest was given up)
Complete == done /\ ~skip /\ ~hurt => src = L
Turn == \A t \in Threads : st[t].pc = "wait" /\ st[t].b < yld => done
\* C05, C06, C18: afterwards nobody enters
Closed == [][done => done' /\ \A t \in Threads : st'[t].pc = "in" => st[t].pc = "in"]_vars
=============================================================================
