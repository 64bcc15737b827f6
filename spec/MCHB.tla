-------------------------------- MODULE MCHB --------------------------------
(* The clocks of HB against the definition of happens-before: every sequence of at most Depth atomic operations (on one
   location, loads may read every message which coherence allows) and accesses of the threads.

   The definition: sequenced-before, and synchronizes-with (release operation or fence, release sequence continued by
   read-modify-writes only, acquire operation or fence), transitively closed.  A race is a pair of conflicting accesses of
   two threads which are not ordered by it.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Depth, Orders

VARIABLES ev, h

T == Cardinality(Threads)
C == [T |-> T]
H == INSTANCE HB

Events(t) ==
  LET n == Len(H!Msgs(C, h, 1))
      A(o, r, x) == [k |-> "a", t |-> t, l |-> 1, o |-> o, r |-> r, x |-> x]
  IN {A("load", r, x) : r \in Orders \cap {"rlx", "acq"}, x \in H!Known(h, t, 1)..(n - 1)}
     \cup {A("store", r, n) : r \in Orders \cap {"rlx", "rel"}}
     \cup {A("rmw", r, n) : r \in Orders}
     \cup {[k |-> "a", t |-> t, l |-> 0, o |-> "fence", r |-> r, x |-> 0] : r \in Orders \cap {"acq", "rel", "ar"}}
     \cup {[k |-> "wr", t |-> t]}
     \cup (IF h.inw = t THEN {[k |-> "wx", t |-> t]} ELSE {[k |-> "we", t |-> t]})

Init == ev = <<>> /\ h = H!Init(C)
Next == /\ Len(ev) < Depth
        /\ \E t \in Threads : \E e \in Events(t) : ev' = Append(ev, e) /\ h' = H!Step(C, h, e)
Spec == Init /\ [][Next]_<<ev, h>>

---------------------------------------------------------------------------
Ix == 1..Len(ev)
Is(i, o) == ev[i].k = "a" /\ ev[i].o \in o
Sb(i, j) == i < j /\ ev[i].t = ev[j].t
\* the event which wrote message m > 0
Writer(m) == CHOOSE i \in Ix : Is(i, {"store", "rmw"}) /\ ev[i].x = m
ReadFrom(j) == IF ev[j].o = "rmw" THEN ev[j].x - 1 ELSE ev[j].x
\* the release operations or fences with which a reader of message m synchronizes through the message k
Heads(m) == {i \in Ix : \/ i = Writer(m) /\ H!Rel(ev[i].r)
                        \/ Is(i, {"fence"}) /\ H!Rel(ev[i].r) /\ Sb(i, Writer(m))}
Sequences == [k \in 1..(Len(H!Msgs(C, h, 1)) - 1) |-> {m \in 1..k : \A q \in (m + 1)..k : ev[Writer(q)].o = "rmw"}]
Sw == UNION {LET k == ReadFrom(j)
                 from == IF k = 0 THEN {} ELSE UNION {Heads(m) : m \in Sequences[k]}
                 to == (IF H!Acq(ev[j].r) THEN {j} ELSE {}) \cup {f \in Ix : Is(f, {"fence"}) /\ H!Acq(ev[f].r) /\ Sb(j, f)}
             IN from \X to : j \in {i \in Ix : Is(i, {"load", "rmw"})}}
RECURSIVE Close(_)
Close(r) == LET s == r \cup {p \in Ix \X Ix : \E q \in Ix : <<p[1], q>> \in r /\ <<q, p[2]>> \in r}
            IN IF s = r THEN r ELSE Close(s)
Hb == Close({p \in Ix \X Ix : Sb(p[1], p[2])} \cup Sw)

Exclusive == {"we", "wx"}
Conflict(i, j) == /\ i < j /\ ev[i].t # ev[j].t
                  /\ \/ ev[j].k = "we" /\ ev[i].k \in Exclusive \cup {"wr"}
                     \/ ev[j].k = "wr" /\ ev[i].k \in Exclusive
Race == LET hb == Hb IN \E i \in Ix, j \in Ix : Conflict(i, j) /\ <<i, j>> \notin hb

\* nothing is reported and nothing is missed
Exact == ("race" \in h.v) <=> Race
Coherent == "incoherent" \notin h.v
\* not invariant: there are races whose accesses have a message read between them
Ordered == "race" \in h.v => \A i \in Ix : ~Is(i, {"load", "rmw"}) \/ ReadFrom(i) = 0
=============================================================================
