------------------------- MODULE CounterProof -------------------------
(* The design of the known sources is correct for all lengths, threads, chunk sizes and histories.
   Checked by tlapm (tools/prove.py). *)
EXTENDS Counter, TLAPS

LEMMA Start == Init => Inv
  BY Sizes DEF Init, Inv, TypeOK, Pos

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Sizes DEF Inv, TypeOK, Pos, MinI, Sat
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. CASE SkipStore
  BY <1>2 DEF SkipStore
<1>3. CASE SkipTake
  BY <1>3 DEF SkipTake
<1>4. ASSUME NEW n \in 0..Max, Pull(n) PROVE Inv'
  <2>1. TypeOK'
    BY <1>4 DEF Pull
  <2>2. /\ rsv' = IF rsv + n < Max THEN rsv + n ELSE Max
        /\ gone' = gone /\ skip' = skip
        /\ \A p \in Pos : taken'[p] = IF rsv <= p /\ p < rsv' THEN taken[p] + 1 ELSE taken[p]
    BY <1>4 DEF Pull, Begin, End
  <2>3. ASSUME NEW p \in Pos
        PROVE  /\ taken'[p] + gone'[p] <= 1
               /\ p >= rsv' => taken'[p] = 0 /\ gone'[p] = 0
               /\ ~skip' => (p < rsv' => taken'[p] = 1)
               /\ Owned => (p < rsv' => taken'[p] + gone'[p] = 1)
    <3>1. /\ p \in Int /\ p < L /\ rsv \in Nat /\ rsv <= Max /\ n \in Nat /\ taken[p] \in Nat /\ gone[p] \in Nat
          /\ taken[p] + gone[p] <= 1
          /\ p >= rsv => taken[p] = 0 /\ gone[p] = 0
          /\ ~skip => (p < rsv => taken[p] = 1)
          /\ Owned => (p < rsv => taken[p] + gone[p] = 1)
      BY <2>3
    <3>2. /\ rsv' = IF rsv + n < Max THEN rsv + n ELSE Max
          /\ gone' = gone /\ skip' = skip
          /\ taken'[p] = IF rsv <= p /\ p < rsv' THEN taken[p] + 1 ELSE taken[p]
      BY <2>2, <2>3
    <3> HIDE DEF Inv, TypeOK, Pos, MinI, Sat
    <3>3. gone'[p] = gone[p] BY <3>2
    <3>4. CASE rsv <= p /\ p < rsv' BY <3>1, <3>2, <3>3, <3>4
    <3>5. CASE ~(rsv <= p /\ p < rsv') BY <3>1, <3>2, <3>3, <3>5
    <3> QED BY <3>4, <3>5
  <2> QED BY <2>1, <2>3
<1> QED
  BY <1>1, <1>2, <1>3, <1>4 DEF Next

THEOREM Safe == Spec => []Inv
  BY Start, Step, PTL DEF Spec

THEOREM States == Spec => [](Once /\ All /\ Prefix /\ Linear /\ Chunks)
<1>1. Inv => Once /\ All /\ Prefix /\ Linear
  BY Sizes DEF Inv, TypeOK, Once, All, Prefix, Linear, Pos
<1>2. Inv => Chunks
  BY Sizes DEF Inv, TypeOK, Chunks, Chunk, Begin, End, MinI, Sat, Pos
<1> QED
  BY <1>1, <1>2, Safe, PTL

THEOREM Monotone == Spec => Forward
<1>1. Inv /\ [Next]_vars => [MinI(rsv, L) <= MinI(rsv', L)]_vars
  BY Sizes DEF Inv, TypeOK, Next, SkipStore, SkipTake, Pull, vars, MinI, Sat
<1> QED
  BY <1>1, Safe, PTL DEF Spec, Forward

THEOREM Permanent == Spec => Final
<1>1. Inv /\ [Next]_vars => [rsv >= L => taken' = taken /\ gone' = gone /\ rsv' >= L]_vars
  <2> SUFFICES ASSUME Inv, [Next]_vars, rsv >= L PROVE taken' = taken /\ gone' = gone /\ rsv' >= L
    OBVIOUS
  <2> USE Sizes DEF Inv, TypeOK, Pos, MinI, Sat
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars
  <2>2. CASE SkipStore BY <2>2 DEF SkipStore
  <2>3. CASE SkipTake BY <2>3 DEF SkipTake
  <2>4. ASSUME NEW n \in 0..Max, Pull(n) PROVE taken' = taken /\ gone' = gone /\ rsv' >= L BY <2>4 DEF Pull, Begin, End
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED
  BY <1>1, Safe, PTL DEF Spec, Final
=============================================================================
