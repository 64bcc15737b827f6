------------------------------ MODULE TraceBig ------------------------------
(* The cursor over sources and with chunk sizes of any magnitude.

   Numbers are triples <<h, g, d>> which stand for h * 2^63 + g * 2^31 + d with small g and d; arithmetic on them is the one of
   the integers (there is no wrap-around), the largest index value is <<2, 0, -1>>.  <<9, 0, 0>> stands for a number which is
   not near to such a sum: no correct execution of the generated programs shows it.

   Configuration: s, e  bounds of the range (0 and the length for other sources), known, hx as in Obs.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, b
vars == <<tid, pos, b>>

Zero == <<0, 0, 0>>
One == <<0, 0, 1>>
Num(n) == <<0, 0, n>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
\* multiples of 2^31 are much larger than d, and multiples of 2^63 are much larger than g * 2^31 + d
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
Le(x, y) == x = y \/ Lt(x, y)
Mn(x, y) == IF Lt(x, y) THEN x ELSE y
Plus(x, k) == <<x[1], x[2], x[3] + k>>

Length(c) == IF Lt(c.s, c.e) THEN Sub(c.e, c.s) ELSE Zero

Singles == {"next", "nid", "val", "iav", "low"}
Loops   == {"fe", "efe", "fold", "vals"}
Moving  == Singles \cup Loops \cup {"chunk", "buf", "skip", "seq", "drop"}
NoCall  == [o |-> "none"]

T(broken, rule) == IF broken THEN {rule} ELSE {}

Init == /\ tid \in DOMAIN Traces
        /\ pos = 0
        /\ b = [cnt |-> Zero, iv |-> {}, ended |-> FALSE, skc |-> FALSE, skr |-> FALSE, zero |-> FALSE, pend |-> 0,
                th |-> [t \in 0..Traces[tid].c.T |-> NoCall], ch |-> <<>>, v |-> {}]

Call(c, s, e) ==
  LET mv == e.o \in Moving
      pc == [o |-> e.o, n |-> e.n, solo |-> s.pend = 0, eb |-> s.ended, sb |-> s.skr, zb |-> s.zero]
      s1 == IF mv THEN [s EXCEPT !.pend = @ + 1,
                                 !.th = [t \in DOMAIN @ |-> IF @[t].o # "none" THEN [@[t] EXCEPT !.solo = FALSE] ELSE @[t]],
                                 !.skc = @ \/ e.o = "skip"]
            ELSE s
  IN [s1 EXCEPT !.th[e.t] = pc]

Disjoint(s, lo, hi) == \A i \in s.iv : Le(hi, i[1]) \/ Le(i[2], lo)

\* positions lo .. hi - 1 are handed out
Hand(c, s, pc, lo, hi) ==
  [s EXCEPT !.iv = @ \cup {<<lo, hi>>}, !.cnt = Add(@, Sub(hi, lo)),
            !.v = @ \cup T(~(Le(Zero, lo) /\ Le(hi, Length(c))), "outofrange")
                    \cup T(~Disjoint(s, lo, hi), "dup")
                    \cup T(pc.solo /\ lo # s.cnt, "position")
                    \cup T(pc.eb, "revive") \cup T(pc.sb, "afterskip") \cup T(pc.zb, "definitive")]

Single(c, s, pc, e) ==
  LET p == Sub(e.p, c.s)
  IN [Hand(c, s, pc, p, Plus(p, 1)) EXCEPT !.v = @ \cup T(e.d = 1 /\ e.x # p, "idx")]

Chunk(c, s, pc, e) ==
  LET hi == Add(e.x, e.m)
  IN [Hand(c, s, pc, e.x, hi) EXCEPT
        !.ch = Append(@, [c |-> e.c, x |-> e.x, m |-> e.m, y |-> 0]),
        !.v = @ \cup T(~Le(One, e.m), "empty") \cup T(~Le(e.m, pc.n), "toolong")
                \cup T(Lt(e.m, pc.n) /\ hi # Length(c), "short")
                \cup T(e.h # 1, "hint")]

Cons(c, s, e) ==
  LET j == CHOOSE k \in DOMAIN s.ch : s.ch[k].c = e.c
      k == s.ch[j]
      n == Len(e.ps)
      first == Add(c.s, Plus(k.x, k.y + e.sk))
  IN [s EXCEPT !.ch[j].y = @ + e.sk + n,
               !.v = @ \cup T(\E q \in 1..n : e.ps[q] # Plus(first, q - 1), "value")
                       \cup T(\E q \in 1..Len(e.ls) : e.ls[q] # Plus(k.m, 1 - q - k.y - (IF q > 1 THEN e.sk ELSE 0)), "len")
                       \cup T(e.z = 1 /\ Plus(Zero, k.y + e.sk + n) # k.m, "fewer")
                       \cup T(e.h # 1, "hint") \cup T(e.j # 0, "panic")]

End(c, s, pc) ==
  IF pc.o \in {"chunk", "buf"} /\ pc.n = Zero THEN s
  ELSE [s EXCEPT !.ended = TRUE, !.v = @ \cup T(pc.solo /\ ~s.skc /\ s.cnt # Length(c), "early")]

Query(c, s, pc, e) ==
  LET yes == e.y = 1 /\ Lt(Zero, e.m)
      no == (e.r = "len" /\ e.y = 1 /\ e.m = Zero) \/ (e.r = "more" /\ e.y = 2)
      rem == IF s.skr \/ s.ended THEN Zero ELSE Sub(Length(c), s.cnt)
      exact == c.known = 1 \/ c.hx = 1
  IN [s EXCEPT !.zero = @ \/ no,
               !.v = @ \cup T(pc.solo /\ exact /\ rem # Zero /\ ~(yes /\ e.m = rem), "length")
                       \cup T(pc.solo /\ exact /\ rem = Zero /\ ~no, "length")
                       \cup T(pc.solo /\ ~exact /\ yes, "length")
                       \cup T(yes /\ (pc.zb \/ pc.eb), "length")]

Remainder(c, s, pc, e) ==
  LET n == Len(e.ps)
      rem == Sub(Length(c), s.cnt)
      first == Add(c.s, s.cnt)
  IN IF s.skc THEN s
     ELSE [s EXCEPT !.v = @ \cup T(\E q \in 1..n : e.ps[q] # Plus(first, q - 1), "remainder")
                            \cup T(~Le(Num(n), rem), "remainder")
                            \cup T(e.z = 1 /\ Num(n) # rem, "remainder")]

Documented(pc) == pc.n = Zero /\ pc.o \in {"mkbuf", "fe", "efe", "fold"}

Ret(c, s, e) ==
  LET pc == s.th[e.t]
      s1 == CASE e.r = "one" -> Single(c, s, pc, e)
              [] e.r = "ch"  -> Chunk(c, s, pc, e)
              [] e.r = "end" -> End(c, s, pc)
              [] e.r \in {"len", "more"} -> Query(c, s, pc, e)
              [] e.r = "seq" -> Remainder(c, s, pc, e)
              [] e.r = "ok" /\ pc.o = "skip" -> [s EXCEPT !.skr = TRUE]
              [] e.r \in {"ok", "fold"} /\ pc.o \in Loops -> End(c, s, pc)
              [] e.r = "panic" -> [s EXCEPT !.v = @ \cup T(~Documented(pc), "panic")]
              [] OTHER -> s
  IN [s1 EXCEPT !.th[e.t] = NoCall, !.pend = IF pc.o \in Moving THEN @ - 1 ELSE @,
                !.v = @ \cup T(e.r # "panic" /\ Documented(pc), "zeroaccepted")]

Join(c, s) ==
  [s EXCEPT !.v = @ \cup T(s.iv # {} /\ ~(\E i \in s.iv : i[2] = s.cnt), "gap")
                    \cup T(s.ended /\ ~s.skc /\ s.cnt # Length(c), "lost")]

Step(c, s, e) ==
  CASE e.k = "call" -> Call(c, s, e)
    [] e.k = "ret"  -> Ret(c, s, e)
    [] e.k = "item" -> Single(c, s, s.th[e.t], e)
    [] e.k = "cons" -> Cons(c, s, e)
    [] e.k = "join" -> Join(c, s)
    [] e.k \in {"crash", "cpanic", "hang", "lim"} -> [s EXCEPT !.v = @ \cup {e.k}]
    [] OTHER -> s

Next == /\ pos < Len(Traces[tid].e)
        /\ pos' = pos + 1
        /\ b' = Step(Traces[tid].c, b, Traces[tid].e[pos + 1])
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Mathematical == b.v = {}

\* the rules which belong to other properties; a call which does not end properly breaks all of them
Free(rules) == b.v \cap (rules \cup {"panic", "crash", "hang", "lim"}) = {}
C01 == Free({"dup", "lost", "outofrange"})
C02 == Free({"idx", "value"})
C03 == Free({"empty", "toolong", "short", "hint", "len", "fewer"})
C04 == Free({"position", "gap", "early"})
C05 == Free({"revive"})
C06 == Free({"afterskip"})
C10 == Free({"remainder"})
C11 == Free({"length", "definitive"})
=============================================================================
