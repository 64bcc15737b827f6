------------------------------- MODULE MCImpl -------------------------------
(* Finite instances of Impl: sets of calls, named by what they are about. *)
EXTENDS Impl

R(n) == [o |-> "next", n |-> n, u |-> -1]
Op(o, n) == [o |-> o, n |-> n, u |-> -1]
Part(o, n, u) == [o |-> o, n |-> n, u |-> u]

One1  == {Op("next", 1), Op("nid", 1)}
Chunk == {Op("chunk", 1), Op("chunk", 2), Op("chunk", 3), Part("chunk", 2, 1)}
Buf   == {Op("mkbuf", 2), Op("buf", 2), Part("buf", 2, 1)}
Loop  == {Op("fe", 1), Op("efe", 2), Op("fold", 2), Op("fold", 1)}
Skip  == {Op("skip", 0)}
Query == {Op("len", 0), Op("more", 0)}

OpsDrain == {Op("nid", 1), Op("chunk", 2), Op("fe", 1), Op("efe", 2)}
OpsPull  == {Op("next", 1), Op("nid", 1), Op("chunk", 2), Part("chunk", 3, 1)} \cup Buf
OpsChunk == Chunk \cup Buf
OpsLoop  == Loop \cup {Op("next", 1), Op("chunk", 2)}
OpsSkip  == {Op("nid", 1), Op("chunk", 2), Op("efe", 2), Op("more", 0)} \cup Skip
OpsQuery == {Op("next", 1), Op("chunk", 2), Op("chunk", 0), Op("fe", 1)} \cup Query \cup Skip
OpsBig   == {Op("next", 1), Op("chunk", 1000), Op("chunk", 999), Op("chunk", 0), Op("efe", 1000), Op("len", 0)}
OpsMix   == One1 \cup Chunk \cup Buf \cup Loop \cup Skip \cup Query
OpsPanic == {Op("next", 1), Op("chunk", 2), Op("chunk", 3), Op("fe", 1), Op("fold", 2)} \cup Buf
OpsWait  == {Op("next", 1), Op("chunk", 2), Op("fe", 1), Op("skip", 0), Op("more", 0)}

Sym == Permutations(Threads)

(* refinement of the unbounded designs, the safety of which is proved (CounterProof, TicketProof) *)
Cnt(p) == B(p \in obs.it[0].dn) + Cardinality({t \in Threads : th[t].o \in Loops /\ \E q \in (th[t].i + 1)..Len(th[t].ps) : th[t].ps[q] = p})
D == INSTANCE Counter WITH Owned <- Kind = "owned", skip <- obs.it[0].skr,
                           taken <- [p \in 0..(L - 1) |-> Cnt(p)],
                           gone <- [p \in 0..(L - 1) |-> B(slot[p][2] > 0 /\ p \notin obs.it[0].dn)]
Counted == D!Spec

PcMap == [yl |-> "wait", cg |-> "look", cl |-> "check", wn |-> "in", cs |-> "end", pl |-> "leave", pc |-> "leave", gs |-> "panic", s2 |-> "skip"]
W == INSTANCE Ticket WITH skip <- rsv = Max, hurt <- obs.inj # {},
                          st <- [t \in Threads |-> LET h == th[t]
                                                       pc == IF h.pc \in DOMAIN PcMap THEN PcMap[h.pc] ELSE "idle"
                                                   IN IF pc \in {"idle", "skip"} THEN [pc |-> pc, b |-> 0, n |-> 1, k |-> 0]
                                                      ELSE [pc |-> pc, b |-> h.b, n |-> h.n, k |-> h.k]]
Ticketed == W!Init /\ [][\E t \in Threads : W!Own(t) \/ (th'[t].n \in 1..Max /\ W!Draw(t, th'[t].n))]_(W!vars)
=============================================================================
