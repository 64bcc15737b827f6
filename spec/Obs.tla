-------------------------------- MODULE Obs --------------------------------
(* The observer.

   It reconstructs, from the visible events of an execution (calls, returns, closure invocations, consumption of chunks,
   inspection of the source, final ledger), the abstract state of every concurrent iterator: ONE sequential cursor over
   the source 0 .. L-1.  Every property is stated over that abstract state; a broken rule adds a tag <<property, rule>>
   to o.v, and the invariants in the modules which use the observer say that no tag of the property occurs.

   The module is constant-level: Init(c) and Step(c, o, e) are functions of the configuration c of the source, the
   observer state o and the event e.  It is used

     - by the models of the implementation (CounterImpl, TicketImpl), whose actions produce events, and
     - by Trace.tla, which feeds it the events recorded from executions of the real crate.

   Configuration c:
     L      length of the source                        known  1 iff slice, vector, array, range (or adaptor thereof)
     hx     1 iff the length is known exactly            own    1 iff elements are moved out of a consumed collection
     bor    1 iff elements are references / clones of elements of a collection of the client
     zst    1 iff elements have no identity              ad     "none" | "cloned" | "copied"
     gen    1 iff clones are distinguishable from originals
     drops  1 iff elements have an observable destructor, 2 iff only moves are observable, 0 otherwise
     T      number of threads (0 is the controlling thread)                                                       *)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt

Far == 1000000000
Singles == {"next", "nid", "val", "iav", "low"}
Chunks  == {"chunk", "buf"}
Loops   == {"fe", "efe", "fold", "vals"}
Queries == {"len", "more"}
Moving  == Singles \cup Chunks \cup Loops \cup {"skip", "seq", "drop"}   \* calls which may move the cursor

T(broken, prop, rule) == IF broken THEN {<<prop, rule>>} ELSE {}
TT(broken, props, rule) == IF broken THEN {<<p, rule>> : p \in props} ELSE {}

Rng(s) == {s[k] : k \in DOMAIN s}
MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

NoCall == [o |-> "none", i |-> 0]

NewIter == [dn   |-> {},        \* positions handed out (a chunk counts when it is returned)
            da   |-> {},        \* positions of the elements which were actually seen
            cnt  |-> 0,         \* number of positions handed out
            hi   |-> -1,        \* largest position handed out by a call that has returned
            ended |-> FALSE,    \* a pull reported the end
            endl |-> FALSE,     \* ... a for_each / fold / values loop
            end1 |-> FALSE,     \* ... a single or one-shot chunk pull
            skc  |-> FALSE,     \* skip_to_end was called
            skr  |-> FALSE,     \* ... and has returned
            zero |-> FALSE,     \* a query has answered No / 0
            lmin |-> Far,       \* smallest length reported so far
            pend |-> 0,         \* calls in flight which may move the cursor
            fz   |-> FALSE,     \* a clone made while other calls were in flight: its start is not known exactly
            lo   |-> 0,
            ada  |-> FALSE,     \* the iterator was replaced by its cloned() / copied() adaptor
            zp   |-> FALSE,     \* a one-shot chunk pull of size zero has returned: it must not have changed anything
            full |-> TRUE]      \* every chunk handed out so far was consumed entirely

Init(c) == [it  |-> [i \in 0..(c.twins - 1) |-> NewIter],
            th  |-> [t \in 0..c.T |-> NoCall],
            own |-> [t \in 0..c.T |-> <<>>],        \* per thread: iterator -> last position
            st  |-> [t \in 0..c.T |-> <<>>],        \* calls in whose closures the thread is, outermost first
            ch  |-> <<>>,                           \* chunk id + 1 -> chunk
            inw |-> -1,                             \* thread inside the wrapped iterator's next
            inj |-> {},                             \* threads with an injected panic
            multi |-> c.twins > 1,                  \* more than one iterator over the source
            loop |-> FALSE,                         \* a for_each / fold was used
            v   |-> {}]

Last(o, t, i) == IF i \in DOMAIN o.own[t] THEN o.own[t][i] ELSE -1
SetLast(o, t, i, p) == [o.own EXCEPT ![t] = [j \in (DOMAIN @) \cup {i} |-> IF j = i THEN MaxI(p, Last(o, t, i)) ELSE @[j]]]

Rem(c, s) == IF s.skr \/ s.ended THEN 0 ELSE MaxI(0, c.L - s.cnt)

Adapted(c, s) == c.ad # "none" \/ s.ada

\* properties that speak about histories like the present one, for rules they share
Shared(c, o, s, base) == base \cup (IF s.skc THEN {"C06"} ELSE {}) \cup (IF o.multi /\ c.bor = 1 THEN {"C19"} ELSE {})
                              \cup (IF o.loop THEN {"C12"} ELSE {}) \cup (IF s.zp THEN {"C16"} ELSE {})
                              \cup (IF Adapted(c, s) THEN {"C13"} ELSE {})

\* two threads which both move an element out of its slot race on the slot
Racy(c) == IF c.own = 1 /\ c.T > 1 THEN {"C07"} ELSE {}

---------------------------------------------------------------------------
(* calls *)

Call(c, o, e) ==
  LET i == e.i
      s == o.it[i]
      mv == e.o \in Moving
      pc == [o |-> e.o, i |-> i, n |-> e.n, eb |-> s.ended, lb |-> s.endl, sb |-> s.skr, zb |-> s.zero, hb |-> s.hi,
             mb |-> s.lmin, solo |-> s.pend = 0 /\ ~s.fz, got |-> <<>>, cb |-> s.cnt, e1 |-> s.end1, kb |-> s.skc,
             pl |-> -1, pf |-> <<>>]
      o1 == IF mv
            THEN [o EXCEPT !.th = [t \in DOMAIN @ |-> IF @[t].o # "none" /\ @[t].i = i
                                                      THEN [@[t] EXCEPT !.solo = FALSE] ELSE @[t]],
                           !.it[i].pend = @ + 1,
                           !.it[i].skc = @ \/ e.o = "skip"]
            ELSE o
      outer == o.th[e.t]
      o2 == IF outer.o = "none" THEN o1
            ELSE [o1 EXCEPT !.st[e.t] = Append(@, [pc |-> [outer EXCEPT !.solo = FALSE], own |-> o.own[e.t]])]
  IN [o2 EXCEPT !.th[e.t] = pc, !.loop = @ \/ e.o \in Loops]

---------------------------------------------------------------------------
(* an element with position p (and index x when d = 1) reaches the client through call pc of thread t *)

ElementTags(c, o, t, pc, e) ==
  LET s == o.it[pc.i]
      known == e.p >= 0 /\ e.p < c.L
  IN (IF c.zst = 1
      THEN TT(e.p # -3, {"C01", "C02"}, "wild")
      ELSE TT(~known, Shared(c, o, s, {"C01", "C02", "C10", "C14"}), "wild")
           \cup TT(known /\ e.p \in s.da, Shared(c, o, s, {"C01", "C04", "C14"} \cup Racy(c)), "dup")
           \cup TT(known /\ o.inj # {} /\ e.p \in s.da, {"C18"}, "dup")
           \cup TT(e.d = 1 /\ e.x # e.p, Shared(c, o, s, {"C02"}), "idx")
           \cup TT(known /\ (e.p <= pc.hb \/ e.p <= Last(o, t, pc.i)), Shared(c, o, s, {"C04"}), "order")
           \cup TT(known /\ s.fz /\ e.p < s.lo, {"C19"}, "clone"))
     \cup TT(pc.eb, {"C05"}, "revive")
     \cup TT(pc.lb, {"C12"}, "revive")
     \cup TT(e.p >= c.L, {"C05"}, "beyond")
     \cup TT(pc.sb, {"C06"}, "afterskip")
     \cup TT(pc.zb, {"C11"}, "definitive")
     \cup T(c.bor = 1 /\ e.a = 0, "C19", "address")
     \cup T(c.bor = 1 /\ c.gen = 1 /\ e.g # (IF Adapted(c, s) THEN 1 ELSE 0), "C13", "notaclone")

\* a cursor which hands out position p (a single pull)
Advance(c, o, t, pc, e) ==
  LET i == pc.i
      q == IF c.zst = 1 THEN (IF e.d = 1 THEN e.x ELSE -1) ELSE e.p
      ps == IF q >= 0 THEN {q} ELSE {}
  IN [o EXCEPT !.it[i].dn = @ \cup ps, !.it[i].da = @ \cup ps, !.it[i].cnt = @ + 1,
               !.it[i].hi = MaxI(@, q), !.own = SetLast(o, t, i, q)]

RetOne(c, o, e) ==
  LET t == e.t
      pc == o.th[t]
      s == o.it[pc.i]
      tags == ElementTags(c, o, t, pc, e)
              \cup TT(pc.solo /\ ~(c.zst = 1) /\ e.p # s.cnt, Shared(c, o, s, {"C04"}), "solo")
              \cup TT(pc.solo /\ e.d = 1 /\ e.x # s.cnt, Shared(c, o, s, {"C02", "C04"}), "solo")
  IN [Advance(c, o, t, pc, e) EXCEPT !.v = @ \cup tags]

(* A loop is a sequence of pulls of at most n elements each.  Of the elements which follow an invocation of the closure at
   most n - 1 belong to the same pull, all others to pulls which start later: pf is what was known at the invocation, and
   pl is the number of elements to go until it applies. *)
Known(s) == [eb |-> s.ended, lb |-> s.endl, sb |-> s.skr, zb |-> s.zero, hb |-> s.hi]
Learn(pc) == IF pc.pl = 0 THEN [pc EXCEPT !.pl = -1, !.eb = pc.pf.eb, !.lb = pc.pf.lb, !.sb = pc.pf.sb, !.zb = pc.pf.zb, !.hb = pc.pf.hb]
             ELSE IF pc.pl > 0 THEN [pc EXCEPT !.pl = @ - 1] ELSE pc
Note(pc, s) == IF pc.pl = -1 \/ pc.pl = pc.n - 1 THEN [pc EXCEPT !.pl = pc.n - 1, !.pf = Known(s)] ELSE pc

Item(c, o, e) ==
  LET t == e.t
      pc == Learn(o.th[t])
      tags == ElementTags(c, o, t, pc, e)
              \cup TT(pc.solo /\ ~(c.zst = 1) /\ e.p # o.it[pc.i].cnt, Shared(c, o, o.it[pc.i], {"C04"}), "solo")
      o1 == Advance(c, o, t, pc, e)
  IN [o1 EXCEPT !.v = @ \cup tags, !.th[t] = Note([pc EXCEPT !.got = Append(@, e.p)], o1.it[pc.i])]

---------------------------------------------------------------------------
(* chunks *)

RetChunk(c, o, e) ==
  LET t == e.t
      pc == o.th[t]
      i == pc.i
      s == o.it[i]
      sane == e.x >= 0 /\ e.m >= 0 /\ e.m <= 4096 /\ e.x <= 100000
      ps == IF sane THEN e.x .. (e.x + e.m - 1) ELSE {}
      tags == TT(e.m < 1, {"C03", "C16"}, "empty")
              \cup TT(e.m > pc.n, {"C03"}, "toolong")
              \cup TT(e.x + e.m > c.L, Shared(c, o, s, {"C01", "C03"} \cup (IF c.extra > 0 THEN {"C05"} ELSE {})), "beyond")
              \cup TT(e.m < pc.n /\ e.x + e.m # c.L, {"C03"}, "short")
              \cup TT(e.h # 1, {"C03"}, "hint")
              \cup TT(ps \cap s.dn # {}, Shared(c, o, s, {"C01", "C04"}), "dup")
              \cup TT(o.inj # {} /\ ps \cap s.dn # {}, {"C18"}, "dup")
              \cup TT(e.m > 0 /\ (e.x <= pc.hb \/ e.x <= Last(o, t, i)), Shared(c, o, s, {"C04"}), "order")
              \cup TT(e.m > 0 /\ pc.eb, {"C05"}, "revive")
              \cup TT(e.m > 0 /\ pc.lb, {"C12"}, "revive")
              \cup TT(e.m > 0 /\ pc.sb, {"C06"}, "afterskip")
              \cup TT(e.m > 0 /\ pc.zb, {"C11"}, "definitive")
              \cup TT(pc.solo /\ e.x # s.cnt, Shared(c, o, s, {"C02", "C04"}), "solo")
              \cup TT(pc.solo /\ e.m # MinI(pc.n, MaxI(0, c.L - s.cnt)), Shared(c, o, s, {"C03", "C04"}), "solo")
              \cup TT(s.fz /\ e.x < s.lo, {"C19"}, "clone")
      last == e.x + e.m - 1
  IN [o EXCEPT !.it[i].dn = @ \cup ps, !.it[i].cnt = @ + e.m, !.it[i].hi = MaxI(@, last),
               !.it[i].full = FALSE,
               !.own = SetLast(o, t, i, last),
               !.ch = Append(@, [i |-> i, x |-> e.x, m |-> e.m, y |-> 0, hb |-> pc.hb, c |-> e.c, z |-> FALSE]),
               !.v = @ \cup tags]

\* position of chunk number k in o.ch; the harness numbers chunks in the order in which they are returned
ChunkOf(o, k) == CHOOSE j \in DOMAIN o.ch : o.ch[j].c = k

\* sk elements of a chunk were passed over, then elements ps were taken from it; ls are the lengths announced before each of them (and after the last)
Consume(c, o, e) ==
  LET j == ChunkOf(o, e.c)
      k == o.ch[j]
      i == k.i
      s == o.it[i]
      n == Len(e.ps)
      P(q) == e.ps[q]
      X(q) == k.x + k.y + e.sk + q - 1     \* the position which the q-th one should have
      clean == e.j = 0
      known == {q \in 1..n : P(q) >= 0 /\ P(q) < c.L}
      seen == {P(q) : q \in known}
      tags == (IF c.zst = 1
               THEN TT(\E q \in 1..n : P(q) # -3, {"C01", "C02"}, "wild")
               ELSE TT(\E q \in 1..n : q \notin known, Shared(c, o, s, {"C01", "C02", "C10", "C14"}), "wild")
                    \cup TT(seen \cap s.da # {} \/ Cardinality(seen) # Cardinality(known),
                            Shared(c, o, s, {"C01", "C04", "C14"} \cup Racy(c)), "dup")
                    \cup TT(o.inj # {} /\ seen \cap s.da # {}, {"C18"}, "dup")
                    \cup TT(\E q \in 1..n : P(q) # X(q), Shared(c, o, s, {"C02", "C03"}), "idx")
                    \cup TT(\E q \in known : P(q) <= k.hb \/ (q > 1 /\ P(q) <= P(q - 1)), Shared(c, o, s, {"C04"}), "order"))
              \cup TT(\E q \in 1..n : P(q) >= c.L, {"C05"}, "beyond")
              \cup TT(\E q \in 1..Len(e.ls) : e.ls[q] # k.m - k.y - q + 1 - (IF q > 1 THEN e.sk ELSE 0), {"C03"}, "len")
              \cup TT(e.h # 1, {"C03"}, "hint")
              \cup TT(k.y + e.sk + n > k.m, {"C03"}, "more")
              \cup TT(e.z = 1 /\ clean /\ k.y + e.sk + n # k.m, {"C03", "C01"}, "fewer")
              \cup TT(e.j = 2, {"C01", "C03", "C18"}, "panic")
              \cup T(c.bor = 1 /\ e.a = 0, "C19", "address")
              \cup T(c.bor = 1 /\ c.gen = 1 /\ n > 0 /\ e.g # (IF Adapted(c, s) THEN 1 ELSE 0), "C13", "notaclone")
  IN [o EXCEPT !.it[i].da = @ \cup seen, !.ch[j].y = @ + e.sk + n, !.ch[j].z = (e.z = 1 /\ clean /\ e.sk = 0), !.v = @ \cup tags]

---------------------------------------------------------------------------
(* the end *)

Ended(o, i, pc) == [o EXCEPT !.it[i].ended = TRUE,
                             !.it[i].endl = @ \/ pc.o \in Loops,
                             !.it[i].end1 = @ \/ pc.o \in Singles \cup {"chunk"}]

RetEnd(c, o, e) ==
  LET pc == o.th[e.t]
      i == pc.i
      s == o.it[i]
      tags == TT(pc.solo /\ ~s.skc /\ ~s.ended /\ o.inj = {} /\ s.cnt < c.L, Shared(c, o, s, {"C01", "C04"}), "early")
  IN IF pc.o \in Chunks /\ pc.n = 0
     THEN [o EXCEPT !.it[i].zp = TRUE]     \* a pull of size zero delivers nothing; that is not the end
     ELSE [Ended(o, i, pc) EXCEPT !.v = @ \cup tags]

RetOk(c, o, e) ==
  LET pc == o.th[e.t]
      i == pc.i
  IN IF pc.o \in Loops THEN Ended(o, i, pc)
     ELSE IF pc.o = "skip" THEN [o EXCEPT !.it[i].skr = TRUE]
     ELSE IF pc.o = "adapt" THEN [o EXCEPT !.it[i].ada = TRUE]
     ELSE o

Bag(s) == [x \in Rng(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]

RetFold(c, o, e) ==
  LET pc == o.th[e.t]
  IN [Ended(o, pc.i, pc) EXCEPT !.v = @ \cup TT(Bag(e.ps) # Bag(pc.got), {"C12"}, "fold")]

---------------------------------------------------------------------------
(* queries *)

RetQuery(c, o, e) ==
  LET pc == o.th[e.t]
      i == pc.i
      s == o.it[i]
      yes == e.y = 1 /\ e.m > 0
      no == (e.r = "len" /\ e.y = 1 /\ e.m = 0) \/ (e.r = "more" /\ e.y = 2)
      maybe == e.y = 0
      r == Rem(c, s)
      exact == c.known = 1 \/ c.hx = 1
      tags == TT(e.r = "more" /\ e.y = 1 /\ e.m = 0, {"C11"}, "yes0")
              \* at any time
              \cup TT(yes /\ e.m > pc.mb, {"C11"}, "grows")
              \cup TT(yes /\ pc.zb, {"C11"}, "definitive")
              \cup TT(yes /\ pc.eb, {"C05", "C11"}, "lenafterend")
              \cup TT(yes /\ pc.lb, {"C12"}, "lenafterend")
              \cup TT(pc.sb /\ ~no, {"C06"}, "moreafterskip")
              \cup TT(c.known = 1 /\ maybe, {"C11"}, "unknown")
              \* no pull in flight
              \cup TT(pc.solo /\ o.inj = {} /\ exact /\ r > 0 /\ ~(yes /\ e.m = r), Shared(c, o, s, {"C11"}), "wrong")
              \cup TT(pc.solo /\ o.inj = {} /\ exact /\ r = 0 /\ ~no, Shared(c, o, s, {"C11"}), "wrong")
              \cup TT(pc.solo /\ o.inj = {} /\ ~exact /\ yes, {"C11"}, "yes")
              \cup TT(pc.solo /\ o.inj = {} /\ ~exact /\ no /\ r > 0, {"C11"}, "no")
              \cup TT(pc.solo /\ (pc.e1 \/ pc.sb) /\ ~no, {"C11"}, "notno")
  IN [o EXCEPT !.it[i].zero = @ \/ no,
               !.it[i].lmin = IF e.y = 1 THEN MinI(@, e.m) ELSE IF no THEN 0 ELSE @,
               !.v = @ \cup tags]

---------------------------------------------------------------------------
(* clones, remainders *)

RetNew(c, o, e) ==
  LET pc == o.th[e.t]
      s == o.it[pc.i]
      exact == pc.solo
      n == IF pc.o = "clone"
           THEN [s EXCEPT !.da = @ \cup s.dn, !.pend = 0, !.fz = ~exact, !.lo = pc.cb, !.hi = IF exact THEN @ ELSE -1,
                          !.zero = exact /\ @, !.lmin = Far, !.full = TRUE,
                          !.ended = pc.eb /\ @, !.skr = pc.sb /\ @, !.skc = @,
                          !.endl = FALSE, !.end1 = exact /\ @]
           ELSE NewIter
      n1 == IF exact \/ pc.o = "fresh" THEN n
            ELSE [n EXCEPT !.dn = 0..(pc.cb - 1), !.da = 0..(pc.cb - 1), !.cnt = 0]
  IN [o EXCEPT !.it = [j \in (DOMAIN @) \cup {e.i} |-> IF j = e.i THEN n1 ELSE @[j]], !.multi = TRUE]

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o SortedSeq(S \ {m})

RetSeq(c, o, e) ==
  LET pc == o.th[e.t]
      s == o.it[pc.i]
      rest == SortedSeq((0..(c.L - 1)) \ s.dn)
      n == Len(e.ps)
      m == IF c.zst = 1 THEN MaxI(0, c.L - s.cnt) ELSE Len(rest)
      ok == IF c.zst = 1
            THEN IF s.skc \/ e.z = 0 THEN n <= m ELSE n = m
            ELSE IF e.z = 0 THEN n <= m /\ e.ps = SubSeq(rest, 1, n)            \* only the beginning was looked at
            ELSE IF s.skc THEN n <= m /\ e.ps = SubSeq(rest, m - n + 1, m)
            ELSE e.ps = rest
      seen == {p \in Rng(e.ps) : p >= 0}
      total == IF e.z = 1 THEN n ELSE m
      tags == IF o.inj # {} \/ s.fz THEN {}
              ELSE TT(~ok, Shared(c, o, s, {"C10"}), "remainder")
                   \cup TT(~s.skc /\ (e.lo > total \/ (e.uy = 1 /\ e.up < total)), {"C10"}, "hint")
                   \cup TT(seen \cap s.dn # {}, Shared(c, o, s, {"C01", "C10", "C14"}), "dup")
                   \cup T(c.bor = 1 /\ e.a = 0, "C19", "address")
                   \cup T(c.bor = 1 /\ c.gen = 1 /\ n > 0 /\ e.g # (IF Adapted(c, s) THEN 1 ELSE 0), "C13", "notaclone")
  IN [o EXCEPT !.v = @ \cup tags \cup TT(o.inj # {} /\ seen \cap s.da # {}, {"C18"}, "dup")]

---------------------------------------------------------------------------
(* panics, hangs *)

Documented(pc) == pc.n = 0 /\ pc.o \in {"mkbuf", "fe", "efe", "fold"}

RetPanic(c, o, e) ==
  LET pc == o.th[e.t]
  IN [o EXCEPT !.v = @ \cup TT(e.j = 0 /\ ~Documented(pc), {"C01", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C16", "C17", "C18", "C19"}, "panic")
                       \cup TT(e.j = 1 /\ e.t \notin o.inj, {"C18"}, "panicelsewhere")]

RetNormal(c, o, e) ==
  LET pc == o.th[e.t]
  IN [o EXCEPT !.v = @ \cup TT(Documented(pc), {"C16"}, "zeroaccepted")]

Return(c, o, e) ==
  LET pc == o.th[e.t]
      i == pc.i
      o1 == CASE e.r = "one"  -> RetOne(c, o, e)
              [] e.r = "end"  -> RetEnd(c, o, e)
              [] e.r = "ch"   -> RetChunk(c, o, e)
              [] e.r = "ok"   -> RetOk(c, o, e)
              [] e.r = "fold" -> RetFold(c, o, e)
              [] e.r \in {"len", "more"} -> RetQuery(c, o, e)
              [] e.r = "new"  -> RetNew(c, o, e)
              [] e.r = "seq"  -> RetSeq(c, o, e)
              [] e.r = "panic" -> RetPanic(c, o, e)
      o2 == IF e.r = "panic" THEN o1 ELSE RetNormal(c, o1, e)
      n == Len(o.st[e.t])
      o3 == [o2 EXCEPT !.th[e.t] = NoCall,
                       !.it[i].pend = IF pc.o \in Moving THEN @ - 1 ELSE @]
      up == o.st[e.t][n]
      \* a call made in a closure has returned: the outer one continues, with positions which it might have reserved before
  IN IF n = 0 THEN o3
     ELSE [o3 EXCEPT !.th[e.t] = IF up.pc.o \in Loops /\ up.pc.pl >= 0 THEN Note(up.pc, o3.it[up.pc.i]) ELSE up.pc, !.st[e.t] = SubSeq(@, 1, n - 1),
                     !.own[e.t] = [j \in DOMAIN @ |-> IF j \in DOMAIN up.own THEN up.own[j] ELSE -1]]

Unfinished == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
               "C16", "C17", "C18", "C19"}

\* the threads e.ts do not get any further, whatever the others do
Hang(c, o, e) ==
  LET S == {t \in Rng(e.ts) \cap DOMAIN o.th : o.th[t].o \in Singles \cup Chunks \cup Loops \cup Queries \cup {"skip", "seq"}}
  IN [o EXCEPT !.v = @ \cup T(TRUE, "C09", "hang") \cup T(o.inj # {}, "C18", "hang") \cup T(o.loop, "C12", "hang")
                       \* these calls had to report the end
                       \cup T(\E t \in S : o.th[t].eb, "C05", "hang") \cup T(\E t \in S : o.th[t].sb, "C06", "hang")
                       \* nothing else was going on
                       \cup T(\E t \in S : o.th[t].solo /\ o.th[t].o \in Moving, "C04", "hang")
                       \cup T(\E t \in S : o.th[t].o = "seq", "C10", "hang")]
Crash(c, o, e) == [o EXCEPT !.v = @ \cup TT(TRUE, Unfinished, "crash")]

---------------------------------------------------------------------------
(* no call is in flight: the threads have been joined *)

IsPrefixSet(S) == S = 0..(Cardinality(S) - 1)
IsInterval(S) == S = {} \/ S = Min(S)..Max(S)

Quiet(c, o) ==
  LET its == DOMAIN o.it
      Lost(i) == LET s == o.it[i] IN ~s.fz /\ ~s.skc /\ s.ended /\ s.cnt # c.L
      Gap(i) == LET s == o.it[i] IN ~s.fz /\ c.zst = 0 /\ ~IsPrefixSet(s.dn)
      Consumed(i) == \A j \in DOMAIN o.ch : o.ch[j].i = i => o.ch[j].z
      LostA(i) == LET s == o.it[i] IN ~s.fz /\ ~s.skc /\ s.ended /\ c.zst = 0 /\ Consumed(i) /\ s.da # 0..(c.L - 1)
      Fuzzy(i) == LET s == o.it[i]
                      new == s.dn \ (0..(s.lo - 1))
                  IN s.fz /\ c.zst = 0 /\ (~IsInterval(new) \/ (s.ended /\ ~s.skc /\ new # {} /\ Max(new) # c.L - 1))
      tags == UNION {TT(Lost(i) \/ LostA(i), Shared(c, o, o.it[i], {"C01"}) \ {"C06"}, "lost")
                     \cup TT(Gap(i), Shared(c, o, o.it[i], {"C04"}), "gap")
                     \cup TT(Fuzzy(i), {"C19"}, "clone") : i \in its}
  IN IF o.inj # {} THEN o ELSE [o EXCEPT !.v = @ \cup tags]

---------------------------------------------------------------------------
(* the end of the execution: everything has been dropped *)

Src(c, o, e) ==
  [o EXCEPT !.v = @ \cup (IF c.zst = 1 THEN TT(e.n # c.L, {"C19", "C13"}, "source")
                          ELSE TT(e.ps # [k \in 1..(c.L + c.extra) |-> k - 1] \/ e.g # 0, {"C19", "C13"}, "source"))]

Sum(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)

Fin(c, o, e) ==
  LET D == DOMAIN e.md
      twice == IF e.z = 1 THEN Sum(e.mv) + Sum(e.dr) > Sum(e.md) + Sum(e.cl)
               ELSE \E k \in D : e.mv[k] + e.dr[k] > e.md[k]
      never == IF e.z = 1 THEN Sum(e.mv) + Sum(e.dr) < Sum(e.md) + Sum(e.cl)
               ELSE \E k \in D : e.mv[k] + e.dr[k] < e.md[k]
      bad == e.gb > 0
      led == {"C08"} \cup (IF o.inj # {} THEN {"C18"} ELSE {})
             \cup (IF \E i \in DOMAIN o.it : o.it[i].skc THEN {"C06"} ELSE {})
             \cup (IF c.bor = 1 THEN {"C19"} ELSE {}) \cup (IF c.ad # "none" \/ (\E i \in DOMAIN o.it : o.it[i].ada) THEN {"C13"} ELSE {})
      tags == TT(c.drops \in {1, 2} /\ twice, led \cup {"C14"}, "twice")
              \cup TT(c.drops = 1 /\ never, led \ {"C06"}, "never")
              \cup TT(c.drops = 1 /\ bad, led \cup {"C14"}, "garbage")
              \cup TT(c.drops = 1 /\ e.z = 0 /\ e.cl # e.cg, {"C13"} \cup (led \ {"C08", "C06"}), "clones")
              \cup TT(e.df > 0, led \cup {"C15", "C17"}, "doublefree")
              \cup TT(e.bl > 0, {"C15", "C17"}, "layout")
              \cup TT(e.lb > 0, {"C15"}, "leak")
  IN [o EXCEPT !.v = @ \cup tags]

---------------------------------------------------------------------------

Step(c, o, e) ==
  CASE e.k = "call" -> Call(c, o, e)
    [] e.k = "ret"  -> Return(c, o, e)
    [] e.k = "item" -> Item(c, o, e)
    [] e.k = "cons" -> Consume(c, o, e)
    [] e.k = "we"   -> [o EXCEPT !.inw = e.t, !.v = @ \cup T(o.inw # -1, "C07", "overlap")]
    [] e.k = "wx"   -> [o EXCEPT !.inw = -1]
    [] e.k = "inj"  -> [o EXCEPT !.inj = @ \cup {e.t}]
    [] e.k \in {"hang", "lim"} -> Hang(c, o, e)
    [] e.k = "crash" -> Crash(c, o, e)
    [] e.k = "cpanic" -> IF o.inj = {} THEN [o EXCEPT !.v = @ \cup TT(TRUE, {"C01", "C08", "C18"}, "droppanic")] ELSE o
    [] e.k = "join" -> Quiet(c, o)
    [] e.k = "src"  -> Src(c, o, e)
    [] e.k = "rng"  -> [o EXCEPT !.v = @ \cup T(e.ok # 1, "C19", "source")]
    [] e.k = "fin"  -> Fin(c, o, e)
    [] OTHER -> o                         \* fork, done, frz, thaw, a

Clean(o, prop) == \A x \in o.v : x[1] # prop
=============================================================================
