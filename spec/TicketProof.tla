------------------------- MODULE TicketProof -------------------------
(* The design of the wrapped iterators is correct for all lengths, threads, chunk sizes and histories.
   Checked by tlapm (tools/prove.py). *)
EXTENDS Ticket, TLAPS

LEMMA Start == Init => Inv
  BY Sizes DEF Init, Inv, TypeOK, One, Two, Holding, Critical, E, Idle, Pc, MinI, Sat

LEMMA Alone == Inv => Exclusive
  BY Sizes DEF Inv, TypeOK, One, Two, Holding, Critical, E, Exclusive, MinI, Sat

LEMMA Types == Inv /\ [Next]_vars => TypeOK'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE TypeOK'
  OBVIOUS
<1> USE Sizes DEF Inv, TypeOK, Pc, Goto, Back, Idle, MinI, Sat
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. ASSUME NEW t \in Threads, NEW n \in 1..Max, Draw(t, n) PROVE TypeOK'
  BY <1>2 DEF Draw
<1>3. ASSUME NEW t \in Threads, Mine(t) PROVE TypeOK'
  BY <1>3 DEF Mine
<1>4. ASSUME NEW t \in Threads, Passed(t) PROVE TypeOK'
  BY <1>4 DEF Passed
<1>5. ASSUME NEW t \in Threads, Later(t) PROVE TypeOK'
  BY <1>5 DEF Later
<1>6. ASSUME NEW t \in Threads, Look(t) PROVE TypeOK'
  BY <1>6 DEF Look
<1>7. ASSUME NEW t \in Threads, Check(t) PROVE TypeOK'
  BY <1>7 DEF Check
<1>8. ASSUME NEW t \in Threads, Yield(t) PROVE TypeOK'
  BY <1>8 DEF Yield, One, Critical
<1>9. ASSUME NEW t \in Threads, NoMore(t) PROVE TypeOK'
  BY <1>9 DEF NoMore
<1>10. ASSUME NEW t \in Threads, Panic(t) PROVE TypeOK'
  BY <1>10 DEF Panic
<1>11. ASSUME NEW t \in Threads, End(t) PROVE TypeOK'
  BY <1>11 DEF End
<1>12. ASSUME NEW t \in Threads, Guard(t) PROVE TypeOK'
  BY <1>12 DEF Guard
<1>13. ASSUME NEW t \in Threads, Leave(t) PROVE TypeOK'
  BY <1>13 DEF Leave
<1>14. ASSUME NEW t \in Threads, Skip1(t) PROVE TypeOK'
  BY <1>14 DEF Skip1
<1>15. ASSUME NEW t \in Threads, Skip2(t) PROVE TypeOK'
  BY <1>15 DEF Skip2
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15 DEF Next, Own

LEMMA Keep == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>0. TypeOK'
  BY Types
<1>e. Exclusive
  BY Alone
<1> USE Sizes, <1>0, <1>e DEF Inv, TypeOK, One, Two, Holding, Critical, E, Exclusive, Goto, Back, Idle, MinI, Sat
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. ASSUME NEW t \in Threads, NEW n \in 1..Max, Draw(t, n) PROVE Inv'
  BY <1>2 DEF Draw
<1>3. ASSUME NEW t \in Threads, Mine(t) PROVE Inv'
  BY <1>3 DEF Mine
<1>4. ASSUME NEW t \in Threads, Passed(t) PROVE Inv'
  BY <1>4 DEF Passed
<1>5. ASSUME NEW t \in Threads, Later(t) PROVE Inv'
  BY <1>5 DEF Later
<1>6. ASSUME NEW t \in Threads, Look(t) PROVE Inv'
  BY <1>6 DEF Look
<1>7. ASSUME NEW t \in Threads, Check(t) PROVE Inv'
  <2>1. CASE done
    BY <1>7, <2>1 DEF Check
  <2>2. CASE ~done
    <3>1. st[t].pc = "check" /\ st[t].b = yld
      BY <1>7 DEF Check
    <3>2. ASSUME NEW u \in Threads, Critical(u) PROVE FALSE
      <4>1. u # t
        BY <3>1, <3>2
      <4>2. st[u].b = st[t].b /\ st[u].b <= L
        BY <3>1, <3>2
      <4>3. E(t) <= st[u].b \/ E(u) <= st[t].b
        BY <3>1, <3>2, <4>1
      <4> QED
        BY <4>2, <4>3
    <3>3. src = yld
      BY <2>2, <3>2
    <3>4. ~none
      BY <2>2, <3>2
    <3>5. /\ st' = [st EXCEPT ![t] = [@ EXCEPT !.pc = "in"]]
          /\ UNCHANGED <<rsv, yld, done, src, none, skip, hurt>>
      BY <1>7, <2>2 DEF Check
    <3>6. \A u \in Threads : One(u)'
      BY <3>1, <3>3, <3>4, <3>5
    <3>7. \A u, v \in Threads : u # v => Two(u, v)'
      BY <3>1, <3>5
    <3> QED
      BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6, <3>7
  <2> QED BY <2>1, <2>2
<1>8. ASSUME NEW t \in Threads, Yield(t) PROVE Inv'
  BY <1>8 DEF Yield
<1>9. ASSUME NEW t \in Threads, NoMore(t) PROVE Inv'
  BY <1>9 DEF NoMore
<1>10. ASSUME NEW t \in Threads, Panic(t) PROVE Inv'
  BY <1>10 DEF Panic
<1>11. ASSUME NEW t \in Threads, End(t) PROVE Inv'
  BY <1>11 DEF End
<1>12. ASSUME NEW t \in Threads, Guard(t) PROVE Inv'
  BY <1>12 DEF Guard
<1>13. ASSUME NEW t \in Threads, Leave(t) PROVE Inv'
  BY <1>13 DEF Leave
<1>14. ASSUME NEW t \in Threads, Skip1(t) PROVE Inv'
  BY <1>14 DEF Skip1
<1>15. ASSUME NEW t \in Threads, Skip2(t) PROVE Inv'
  BY <1>15 DEF Skip2
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15 DEF Next, Own

THEOREM Safe == Spec => []Inv
  BY Start, Keep, PTL DEF Spec

THEOREM States == Spec => [](Exclusive /\ Fused /\ Index /\ Full /\ Complete /\ Turn)
<1>1. Inv => Fused /\ Index /\ Full /\ Complete /\ Turn
  BY Sizes DEF Inv, TypeOK, One, Holding, Critical, E, Fused, Index, Full, Complete, Turn, MinI, Sat
<1> QED
  BY <1>1, Alone, Safe, PTL

THEOREM Permanent == Spec => Closed
<1>1. Inv /\ [Next]_vars => [done => done' /\ \A t \in Threads : st'[t].pc = "in" => st[t].pc = "in"]_vars
  BY Sizes DEF Inv, TypeOK, Next, Own, Draw, Mine, Passed, Later, Look, Check, Yield, NoMore, Panic, End, Guard, Leave, Skip1, Skip2, Goto, Back, Idle, vars
<1> QED
  BY <1>1, Safe, PTL DEF Spec, Closed
=============================================================================
