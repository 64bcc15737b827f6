-------------------------------- MODULE Impl --------------------------------
(* The implementations, at the grain of their atomic operations and callbacks.

   Kind   "shared"  slice, range and references of vectors and arrays: a counter, skip stores the length
          "owned"   vector and array: a counter, skip reserves everything and destroys it; slots are taken by their owners
          "ticket"  a wrapped sequential iterator: a ticket counter, a counter of yielded elements, a completed flag

   One action is the code which a thread executes from one scheduling point of the harness to the next one (a scheduling
   point precedes every call, every atomic operation, and lies inside of every callback: the closures of the loops and
   next() of the wrapped iterator).  A behaviour is therefore also a schedule of the real crate: ImplGen writes behaviours
   down, the harness executes their schedules, and the events have to be the same.

   Watch = FALSE leaves the observer out (for the liveness properties).  Fault plants a known defect, to see that the properties
   are sensitive to it ("none" for the code as it is):
     "wrap"     the counter wraps around            "noguard"  a panic does not complete the iteration
     "late"     the yielded counter is increased before the wrapped iterator is used
     "noend"    the end of the wrapped iterator is not recorded
     "tear"     the counter is moved by a load and a store, not by compare-and-swap
     "noskip"   skip does not complete the iteration
     "leak"     skip does not destroy what it reserves

   The wrapped iterator has Extra more elements after it has reported its end: nobody may ask for them (a conversion hands
   the wrapped iterator over as it is: it is left out when Extra > 0).
   It may panic (at call number PanicAt), so may a closure (at call number ClosurePanicAt).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS L, Threads, Calls, Ops, Kind, Hx, PanicAt, ClosurePanicAt, Final, Watch, Fault, Extra

O == INSTANCE Obs

VARIABLES rsv,      \* the counter (of tickets)
          yld,      \* ticket: elements yielded
          done,     \* ticket: completed
          src,      \* ticket: next position of the wrapped iterator
          none,     \* ticket: the wrapped iterator has reported its end
          wc,       \* ticket: number of calls of the wrapped next
          fc,       \* number of calls of closures
          slot,     \* owned: what happened to the elements, <<moved out, destroyed>>
          th, obs, phase,
          evs       \* the events of the last step
vars == <<rsv, yld, done, src, none, wc, fc, slot, th, obs, phase, evs>>
view == <<rsv, yld, done, src, none, wc, fc, slot, th, obs, phase>>

Max == 1000
Sat(x) == IF x > Max THEN IF Fault = "wrap" THEN x - Max - 1 ELSE Max ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Ticket == Kind = "ticket"
Known == ~Ticket
B(x) == IF x THEN 1 ELSE 0

Conf == [L |-> L, known |-> B(Known), hx |-> B(Known \/ Hx), own |-> B(Kind # "shared"), bor |-> B(Kind = "shared"), zst |-> 0,
         ad |-> "none", gen |-> 1, T |-> Cardinality(Threads), twins |-> 1, drops |-> 1, extra |-> Extra]

RECURSIVE Feed(_, _)
Feed(ob, es) == IF es = <<>> THEN ob ELSE Feed(O!Step(Conf, ob, Head(es)), Tail(es))

Singles == {"next", "nid"}
Loops == {"fe", "efe", "fold"}

\* what a thread does next: pc;  the call it executes: o, n, u (number of elements which it takes out of a chunk, -1 for all)
Fresh == [pc |-> "start", o |-> "none", n |-> 0, u |-> -1, v |-> 0, b |-> 0, k |-> 0, left |-> Calls, nch |-> 0, got |-> <<>>, i |-> 0, buf |-> 0, ps |-> <<>>, last |-> <<0, 0>>]

Init == /\ rsv = 0 /\ yld = 0 /\ done = FALSE /\ src = 0 /\ none = FALSE /\ wc = 0 /\ fc = 0
        /\ slot = [p \in 0..(L - 1) |-> <<0, 0>>]
        /\ th = [t \in Threads |-> Fresh]
        /\ obs = O!Init(Conf) /\ phase = "run" /\ evs = <<>>

Emit(es) == IF Watch THEN evs' = es /\ obs' = Feed(obs, es) ELSE UNCHANGED <<evs, obs>>
Goto(t, pc) == th' = [th EXCEPT ![t].pc = pc]
Keep(xs) == UNCHANGED xs

C(t, op) == [k |-> "call", t |-> t, i |-> 0, o |-> op.o, n |-> op.n]
RetEnd(t) == [k |-> "ret", t |-> t, r |-> "end"]
RetOk(t) == [k |-> "ret", t |-> t, r |-> "ok"]
One(t, p, d) == [k |-> "ret", t |-> t, r |-> "one", x |-> IF d = 1 THEN p ELSE -1, p |-> p, g |-> 0, a |-> 1, d |-> d]
Back(h) == [h EXCEPT !.pc = "idle", !.o = "none", !.n = 0, !.u = -1, !.v = 0, !.b = 0, !.k = 0, !.got = <<>>, !.i = 0, !.ps = <<>>]

\* moves the positions S out to clients and destroys those of D
Gone(S, D) == slot' = IF Kind # "owned" THEN slot
                      ELSE [p \in DOMAIN slot |-> <<slot[p][1] + B(p \in S), slot[p][2] + B(p \in D)>>]

---------------------------------------------------------------------------
(* what the call shows when it knows that the iteration is over *)
Over(t, h) ==
  LET ev == CASE h.o \in {"fe", "efe"} -> RetOk(t)
              [] h.o = "fold" -> [k |-> "ret", t |-> t, r |-> "fold", ps |-> h.got]
              [] OTHER -> RetEnd(t)
  IN /\ Emit(<<ev>>)
     /\ th' = [th EXCEPT ![t] = [Back(h) EXCEPT !.last = <<0, 0>>]]

\* the closure is called with element p: the callback begins
CallBack(t, h, p, es) ==
  LET d == IF h.o = "efe" THEN 1 ELSE 0
      e == [k |-> "item", t |-> t, i |-> 0, x |-> IF d = 1 THEN p ELSE -1, p |-> p, g |-> 0, a |-> 1, d |-> d]
  IN /\ fc' = fc + 1
     /\ IF fc = ClosurePanicAt
        THEN \* it panics at once; the rest of the chunk is destroyed
             /\ Emit(es \o <<e, [k |-> "inj", t |-> t], [k |-> "ret", t |-> t, r |-> "panic", j |-> 1]>>)
             /\ th' = [th EXCEPT ![t] = Back(h)]
             /\ Gone({p}, {h.ps[q] : q \in (h.i + 1)..Len(h.ps)})
        ELSE /\ Emit(es \o <<e>>)
             /\ th' = [th EXCEPT ![t] = [h EXCEPT !.pc = "cb", !.got = Append(@, p)]]
             /\ Gone({p}, {})

\* the elements ps, which begin at position h.b, are delivered
Deliver(t, h, ps) ==
  LET m == Len(ps)
      c == t * 1000 + h.nch
      q == IF h.u = -1 THEN m ELSE MinI(h.u, m)
      ended == h.u = -1 \/ h.u > m
  IN CASE h.o \in Singles ->
            /\ Emit(<<One(t, ps[1], IF h.o = "nid" THEN 1 ELSE 0)>>)
            /\ th' = [th EXCEPT ![t] = [Back(h) EXCEPT !.last = <<h.b, 1>>]] /\ Gone({ps[1]}, {}) /\ fc' = fc
       [] h.o \in {"chunk", "buf"} ->
            /\ Emit(<<[k |-> "ret", t |-> t, r |-> "ch", c |-> c, x |-> h.b, m |-> m, h |-> 1],
                      [k |-> "cons", t |-> t, c |-> c, sk |-> 0, ps |-> SubSeq(ps, 1, q), ls |-> [j \in 1..(q + 1) |-> m - j + 1],
                       z |-> B(ended), a |-> 1, g |-> IF q = 0 THEN -1 ELSE 0, h |-> 1, f |-> 0, j |-> 0]>>)
            /\ th' = [th EXCEPT ![t] = [Back(h) EXCEPT !.nch = @ + 1, !.last = <<h.b, m>>]]
            /\ Gone({ps[j] : j \in 1..q}, {ps[j] : j \in (q + 1)..m}) /\ fc' = fc
       [] OTHER -> CallBack(t, [h EXCEPT !.ps = ps, !.i = 1, !.last = <<h.b, m>>], ps[1], <<>>)

---------------------------------------------------------------------------
(* calls *)

Start(t) ==
  /\ th[t].pc = "start"
  /\ Goto(t, "idle") /\ Emit(<<>>) /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Call(t, op) ==
  LET h == [th[t] EXCEPT !.o = op.o, !.n = op.n, !.u = op.u, !.left = @ - 1, !.last = <<0, 0>>]
      c == <<C(t, op)>>
      go(pc) == Emit(c) /\ th' = [th EXCEPT ![t] = [h EXCEPT !.pc = pc]]
  IN /\ phase = "run" /\ th[t].pc = "idle" /\ th[t].left > 0
     /\ op.o = "buf" => th[t].buf = op.n
     /\ CASE op.o = "chunk" /\ op.n = 0 /\ Ticket -> Emit(c \o <<RetEnd(t)>>) /\ th' = [th EXCEPT ![t] = Back(h)]
          [] op.o = "mkbuf" -> Emit(c \o <<RetOk(t)>>) /\ th' = [th EXCEPT ![t] = [Back(h) EXCEPT !.buf = op.n]]
          [] op.o = "skip" -> go(IF Kind = "owned" THEN "ld" ELSE "s1")
          [] op.o \in {"len", "more"} -> go(IF Ticket THEN "q1" ELSE "q2")
          [] OTHER -> go("ld")
     /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

\* the counter is read, and then moved by compare-and-swap
Load(t) ==
  /\ th[t].pc = "ld"
  /\ th' = [th EXCEPT ![t].pc = "cas", ![t].v = rsv]
  /\ Emit(<<>>) /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Reserved(t, h) ==
  LET b == IF Fault = "tear" THEN h.v ELSE rsv
      hi == MaxI(b, MinI(L, Sat(b + h.n)))
  IN CASE Ticket -> /\ th' = [th EXCEPT ![t] = [h EXCEPT !.b = b, !.pc = "yl", !.k = 0, !.ps = <<>>]]
                    /\ Emit(<<>>) /\ UNCHANGED <<slot, fc>>
       [] h.o = "skip" -> /\ Gone({}, IF Fault = "leak" THEN {} ELSE b..(L - 1))
                          /\ Emit(<<RetOk(t)>>) /\ th' = [th EXCEPT ![t] = Back(h)] /\ UNCHANGED fc
       [] ~Ticket /\ h.o # "skip" /\ b < hi -> Deliver(t, [h EXCEPT !.b = b], [j \in 1..(hi - b) |-> b + j - 1])
       [] OTHER -> Over(t, h) /\ UNCHANGED <<slot, fc>>

Cas(t) ==
  LET h == th[t]
      n == IF h.o = "skip" THEN L ELSE h.n
  IN /\ h.pc = "cas"
     /\ IF rsv = h.v \/ Fault = "tear"
        THEN rsv' = Sat(IF Fault = "tear" THEN h.v + n ELSE rsv + n) /\ Reserved(t, h)
        ELSE th' = [th EXCEPT ![t].v = rsv] /\ Emit(<<>>) /\ UNCHANGED <<rsv, slot, fc>>
     /\ Keep(<<yld, done, src, none, wc, phase>>)

---------------------------------------------------------------------------
(* the ticket lock *)

Yl(t) ==
  LET h == th[t]
  IN /\ h.pc = "yl"
     /\ CASE h.b = yld -> Goto(t, "cl") /\ Emit(<<>>)
          [] h.b < yld -> Over(t, h)
          [] h.b > yld -> Goto(t, "cg") /\ Emit(<<>>)
     /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Cg(t) ==
  /\ th[t].pc = "cg"
  /\ IF done THEN Over(t, th[t]) ELSE Goto(t, "yl") /\ Emit(<<>>)
  /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Cl(t) ==
  /\ th[t].pc = "cl"
  /\ IF done THEN Over(t, th[t]) /\ UNCHANGED wc
     ELSE /\ th' = [th EXCEPT ![t].pc = "wn", ![t].v = wc]
          /\ Emit(<<[k |-> "we", t |-> t]>>) /\ wc' = wc + 1
  /\ yld' = IF Fault = "late" /\ ~done THEN yld + th[t].n ELSE yld
  /\ Keep(<<rsv, done, src, none, fc, slot, phase>>)

\* next() of the wrapped iterator continues after its scheduling point
Wn(t) ==
  LET h == th[t]
      out(p) == [k |-> "wx", t |-> t, p |-> p]
      more == h.o \notin Singles /\ h.n # 1 /\ h.k + 1 < h.n
      more1 == h.o \in {"chunk", "buf"} /\ h.k + 1 < h.n
  IN /\ h.pc = "wn"
     /\ CASE h.v = PanicAt ->
               /\ Emit(<<[k |-> "inj", t |-> t], out(-2)>>)
               /\ IF Fault = "noguard" THEN th' = [th EXCEPT ![t].pc = "gp"] ELSE Goto(t, "gs")
               /\ UNCHANGED <<src, none, wc>>
          [] h.v # PanicAt /\ (src < L \/ (none /\ src < L + Extra)) ->
               LET h1 == [h EXCEPT !.k = @ + 1, !.ps = Append(@, src)]
               IN /\ src' = src + 1
                  /\ none' = none
                  /\ IF more \/ more1
                     THEN /\ th' = [th EXCEPT ![t] = [h1 EXCEPT !.v = wc]] /\ wc' = wc + 1
                          /\ Emit(<<out(src), [k |-> "we", t |-> t]>>)
                     ELSE /\ th' = [th EXCEPT ![t] = [h1 EXCEPT !.pc = "pl"]] /\ wc' = wc
                          /\ Emit(<<out(src)>>)
          [] OTHER -> Emit(<<out(-1)>>) /\ Goto(t, "cs") /\ none' = TRUE /\ UNCHANGED <<src, wc>>
     /\ Keep(<<rsv, yld, done, fc, slot, phase>>)

\* a panic: the guard completes the iteration; what was pulled so far is destroyed
Gs(t) ==
  /\ th[t].pc \in {"gs", "gp"}
  /\ done' = IF th[t].pc = "gs" THEN TRUE ELSE done
  /\ Emit(<<[k |-> "ret", t |-> t, r |-> "panic", j |-> 1]>>)
  /\ th' = [th EXCEPT ![t] = Back(@)]
  /\ Keep(<<rsv, yld, src, none, wc, fc, slot, phase>>)

\* the wrapped iterator has reported its end
Cs(t) ==
  LET h == th[t]
  IN /\ h.pc = "cs"
     /\ done' = (done \/ Fault # "noend")
     /\ IF h.o \in Singles \/ (h.o \in Loops /\ h.n = 1) THEN Over(t, h) ELSE Goto(t, "pl") /\ Emit(<<>>)
     /\ Keep(<<rsv, yld, src, none, wc, fc, slot, phase>>)

\* the number of yielded elements is increased: load, compare-and-swap
Pl(t) ==
  /\ th[t].pc = "pl"
  /\ th' = [th EXCEPT ![t].pc = "pc", ![t].v = yld]
  /\ Emit(<<>>) /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Pc(t) ==
  LET h == th[t]
      one == h.o \in Singles \/ (h.o \in Loops /\ h.n = 1)
  IN /\ h.pc = "pc"
     /\ IF yld = h.v
        THEN /\ yld' = IF Fault = "late" THEN yld ELSE Sat(yld + (IF one THEN 1 ELSE h.n))
             /\ IF h.ps = <<>> THEN Over(t, h) /\ UNCHANGED <<fc, slot>> ELSE Deliver(t, h, h.ps)
        ELSE th' = [th EXCEPT ![t].v = yld] /\ Emit(<<>>) /\ UNCHANGED <<yld, fc, slot>>
     /\ Keep(<<rsv, done, src, none, wc, phase>>)

---------------------------------------------------------------------------
(* the loops: the closure returns *)

Cb(t) ==
  LET h == th[t]
  IN /\ h.pc = "cb"
     /\ IF h.i < Len(h.ps)
        THEN CallBack(t, [h EXCEPT !.i = @ + 1], h.ps[h.i + 1], <<>>)
        ELSE th' = [th EXCEPT ![t] = [h EXCEPT !.pc = "ld", !.ps = <<>>, !.i = 0]] /\ Emit(<<>>) /\ UNCHANGED <<fc, slot>>
     /\ Keep(<<rsv, yld, done, src, none, wc, phase>>)

---------------------------------------------------------------------------
(* skips and queries *)

S1(t) ==
  /\ th[t].pc = "s1"
  /\ rsv' = IF Ticket THEN Max ELSE L
  /\ IF Ticket THEN Goto(t, "s2") /\ Emit(<<>>) ELSE Emit(<<RetOk(t)>>) /\ th' = [th EXCEPT ![t] = Back(@)]
  /\ Keep(<<yld, done, src, none, wc, fc, slot, phase>>)

S2(t) ==
  /\ th[t].pc = "s2"
  /\ done' = (done \/ Fault # "noskip")
  /\ Emit(<<RetOk(t)>>) /\ th' = [th EXCEPT ![t] = Back(@)]
  /\ Keep(<<rsv, yld, src, none, wc, fc, slot, phase>>)

Answer(t, y, m) ==
  /\ Emit(<<IF th[t].o = "len" THEN [k |-> "ret", t |-> t, r |-> "len", y |-> y, m |-> m]
            ELSE [k |-> "ret", t |-> t, r |-> "more", y |-> IF y = 0 THEN 0 ELSE IF m = 0 THEN 2 ELSE 1, m |-> m]>>)
  /\ th' = [th EXCEPT ![t] = Back(@)]

Q1(t) ==
  /\ th[t].pc = "q1"
  /\ IF done THEN Answer(t, 1, 0) ELSE IF Hx THEN Goto(t, "q2") /\ Emit(<<>>) ELSE Answer(t, 0, 0)
  /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

Q2(t) ==
  /\ th[t].pc = "q2"
  /\ Answer(t, 1, MaxI(0, L - rsv))
  /\ Keep(<<rsv, yld, done, src, none, wc, fc, slot, phase>>)

---------------------------------------------------------------------------
(* the end: the threads are joined, then the iterator is dropped or converted back *)

RECURSIVE FromTo(_, _)
FromTo(a, b) == IF a >= b THEN <<>> ELSE <<a>> \o FromTo(a + 1, b)

Finish(how) ==
  LET first == IF Ticket THEN src ELSE MinI(rsv, L)
      rest == FromTo(first, L)
      out == IF how = "seq" THEN {rest[q] : q \in DOMAIN rest} ELSE {}
      lost == IF how = "drop" THEN {rest[q] : q \in DOMAIN rest} ELSE {}
      sl == [p \in DOMAIN slot |-> <<slot[p][1] + B(p \in out), slot[p][2] + B(p \in lost)>>]
      fin == [k |-> "fin", z |-> 0, md |-> [q \in 1..L |-> 1], mv |-> [q \in 1..L |-> sl[q - 1][1]], dr |-> [q \in 1..L |-> sl[q - 1][2]],
              cl |-> <<>>, cg |-> <<>>, gb |-> 0, lb |-> 0, ly |-> 0, tb |-> 0, df |-> 0, bl |-> 0]
      seq == IF how = "drop" THEN <<[k |-> "call", t |-> 0, i |-> 0, o |-> "drop", n |-> 0], [k |-> "ret", t |-> 0, r |-> "ok"]>>
             ELSE <<[k |-> "call", t |-> 0, i |-> 0, o |-> "seq", n |-> 0],
                    [k |-> "ret", t |-> 0, r |-> "seq", ps |-> rest, lo |-> IF Known \/ Hx THEN Len(rest) ELSE 0, uy |-> B(Known \/ Hx),
                     up |-> IF Known \/ Hx THEN Len(rest) ELSE 0, z |-> 1, a |-> 1, g |-> 0]>>
  IN /\ phase = "run" /\ \A t \in Threads : th[t].pc \in {"idle", "start"}
     /\ how = "seq" => Extra = 0
     /\ phase' = "over"
     /\ Emit(<<[k |-> "join"]>> \o seq \o (IF Kind = "owned" THEN <<fin>> ELSE <<>>))
     /\ slot' = sl
     /\ Keep(<<rsv, yld, done, src, none, wc, fc, th>>)

---------------------------------------------------------------------------

Own(t) == Load(t) \/ Cas(t) \/ Yl(t) \/ Cg(t) \/ Cl(t) \/ Wn(t) \/ Gs(t) \/ Cs(t) \/ Pl(t) \/ Pc(t) \/ Cb(t) \/ S1(t) \/ S2(t) \/ Q1(t) \/ Q2(t)
Step(t) == Start(t) \/ Own(t) \/ \E op \in Ops : Call(t, op)
Next == (\E how \in Final : Finish(how)) \/ \E t \in Threads : Step(t)

Spec == Init /\ [][Next]_vars

(* properties *)
Quiet == obs.v = {}

\* a call in progress; the wrapped iterator is entered by one thread at a time
Exclusive == Cardinality({t \in Threads : th[t].pc = "wn"}) <= 1
Owned == Kind = "owned" => \A p \in DOMAIN slot : slot[p][1] + slot[p][2] <= 1
TypeOK == /\ rsv \in 0..Max /\ yld \in 0..Max /\ src \in 0..(L + Extra) /\ done \in BOOLEAN
          \* tickets are yielded in order, and not before they are drawn
          /\ Ticket => src <= yld + (IF \E t \in Threads : th[t].pc \in {"wn", "pl", "pc", "cs", "gs"} THEN L ELSE IF done THEN L ELSE 0)

(* progress: every call returns, when every thread is given its turn again and again *)
Fair == Spec /\ \A t \in Threads : WF_vars(Own(t) \/ Start(t))
Returns == \A t \in Threads : (th[t].pc \notin {"idle", "start"}) ~> (th[t].pc = "idle")

(* known sources: a thread which is given its turns returns although all others may be suspended at any point, forever *)
Alone == Spec /\ \A t \in Threads : (t = 1 => WF_vars(Own(t) \/ Start(t)))
Returns1 == (th[1].pc \notin {"idle", "start"}) ~> (th[1].pc = "idle")

(* refinement: the implementations are linearizable (when nothing panics).  The counter is the cursor of the known sources.  A
   pull of a wrapped iterator takes effect when its thread enters the critical section: what it is going to get is determined. *)
InCs(t) == th[t].pc \in {"wn", "cs", "pl", "pc"}
Begin(t) == src - Len(th[t].ps)
Got(t) == MinI(th[t].n, L - Begin(t))
LAt == IF Ticket THEN IF \E t \in Threads : th[t].pc = "wn" THEN LET t == CHOOSE t \in Threads : th[t].pc = "wn" IN Begin(t) + Got(t) ELSE src
       ELSE MinI(rsv, L)
LSt == [t \in Threads |->
          LET h == th[t]
              g == Got(t)
              w == <<IF g = 0 THEN 0 ELSE Begin(t), g>>
              x == IF InCs(t) THEN w ELSE h.last
          IN IF h.pc \in {"idle", "start"} THEN [pc |-> "idle", o |-> "none", n |-> 0, lo |-> x[1], m |-> x[2]]
             ELSE [pc |-> IF InCs(t) /\ (h.o \notin Loops \/ g = 0) THEN "taken" ELSE "called",
                   o |-> h.o, n |-> h.n, lo |-> x[1], m |-> x[2]]]
Lin == INSTANCE Linear WITH at <- LAt, stop <- (Ticket /\ done /\ LAt < L), st <- LSt
Linearizable == Lin!Spec

(* what has been taken is a prefix which only grows, one position after the other; nothing is taken
   after the end of the iteration.                                                                                            *)
pos == IF Ticket THEN src ELSE MinI(rsv, L)
Cursor == [][pos' >= pos /\ pos' <= L]_vars
=============================================================================
