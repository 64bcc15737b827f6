----------------------------- MODULE TraceTwin -----------------------------
(* Twins: iterator 0 yields references, iterator 1 is the same iterator adapted by cloned() / copied(), over the same
   source.  The client performs every operation first on iterator 0 and then on iterator 1.

   Refinement in lock step: what iterator 1 shows is what iterator 0 showed, operation by operation, except that its
   elements are clones of the elements of the source (which have the positions of their originals).                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, tw
vars == <<tid, pos, tw>>

(* what the client sees of an event *)
Seen(e) ==
  CASE e.k = "item" -> <<"item", e.x, e.p, e.d>>
    [] e.k = "cons" -> <<"cons", e.ps, e.sk, e.ls, e.z, e.h, e.j>>
    [] e.k = "ret" /\ e.r = "one"  -> <<"one", e.x, e.p, e.d>>
    [] e.k = "ret" /\ e.r = "end"  -> <<"end">>
    [] e.k = "ret" /\ e.r = "ch"   -> <<"ch", e.x, e.m, e.h>>
    [] e.k = "ret" /\ e.r = "ok"   -> <<"ok">>
    [] e.k = "ret" /\ e.r = "fold" -> <<"fold", e.ps>>
    [] e.k = "ret" /\ e.r \in {"len", "more"} -> <<e.r, e.y, e.m>>
    [] e.k = "ret" /\ e.r = "seq"  -> <<"seq", e.ps, e.z>>
    [] e.k = "ret" /\ e.r = "new"  -> <<"new">>
    [] e.k = "ret" /\ e.r = "panic" -> <<"panic", e.j>>

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ tw = [ad |-> Traces[tid].c.ad # "none",              \* the adaptor may also be applied later
                 call |-> [i |-> 0, o |-> "none", n |-> 0],    \* the current operation
                 ch |-> <<>>,                                  \* owner of every chunk, in the order of their return
                 q |-> <<>>,                                   \* shown by iterator 0, not yet by iterator 1
                 v |-> {}]

Show(s, i, x) ==
  IF i = 0 THEN [s EXCEPT !.q = Append(@, x)]
  ELSE IF s.q = <<>> THEN [s EXCEPT !.v = @ \cup {"more"}]
  ELSE [s EXCEPT !.q = Tail(@), !.v = @ \cup (IF Head(s.q) = x THEN {} ELSE {"differs"})]

\* elements of iterator 1 are clones, elements of iterator 0 are the originals, at their addresses
Original(c, s, i, g, a, some) ==
  IF c.gen = 0 \/ ~some THEN {}
  ELSE IF i = 0 \/ ~s.ad THEN (IF g = 0 /\ a = 1 THEN {} ELSE {"notoriginal"})
  ELSE IF g = 1 THEN {} ELSE {"notclone"}

Step(c, s, e) ==
  CASE e.k = "call" -> [s EXCEPT !.call = [i |-> e.i, o |-> e.o, n |-> e.n]]
    [] e.k = "item" ->
         [Show(s, e.i, Seen(e)) EXCEPT !.v = @ \cup Original(c, s, e.i, e.g, e.a, TRUE)]
    [] e.k = "cons" ->
         LET i == s.ch[e.c + 1]
         IN [Show(s, i, Seen(e)) EXCEPT !.v = @ \cup Original(c, s, i, e.g, e.a, e.ps # <<>>)]
    [] e.k = "ret" /\ s.call.o = "adapt" ->
         [s EXCEPT !.ad = @ \/ e.r = "ok", !.v = @ \cup (IF e.r = "ok" THEN {} ELSE {"differs"})]
    [] e.k = "ret" ->
         LET i == s.call.i
             s1 == Show(s, i, <<s.call.o, s.call.n, Seen(e)>>)
         IN CASE e.r = "ch"  -> [s1 EXCEPT !.ch = Append(@, i)]
              [] e.r = "one" -> [s1 EXCEPT !.v = @ \cup Original(c, s, i, e.g, e.a, TRUE)]
              [] e.r = "seq" -> [s1 EXCEPT !.v = @ \cup Original(c, s, i, e.g, e.a, e.ps # <<>>)]
              [] OTHER -> s1
    [] e.k = "src" -> [s EXCEPT !.v = @ \cup (IF c.zst = 1 \/ (e.ps = [k \in 1..(c.L + c.extra) |-> k - 1] /\ e.g = 0)
                                              THEN {} ELSE {"source"})]
    [] e.k = "fin" -> [s EXCEPT !.v = @ \cup (IF s.q = <<>> THEN {} ELSE {"less"})
                                        \cup (IF c.drops = 1 /\ e.z = 0 /\ (e.cl # e.cg \/ e.gb > 0) THEN {"clones"} ELSE {})]
    [] e.k \in {"crash", "cpanic", "hang", "lim"} -> [s EXCEPT !.v = @ \cup {e.k}]
    [] OTHER -> s

Next == /\ pos < Len(Traces[tid].e)
        /\ pos' = pos + 1
        /\ tw' = Step(Traces[tid].c, tw, Traces[tid].e[pos + 1])
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Transparent == tw.v = {}
=============================================================================
