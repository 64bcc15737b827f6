------------------------------- MODULE Counter -------------------------------
(* The known sources (slice, range, vector, array), for any length, any number of threads, any chunk sizes and any history:
   a counter which is moved by compare-and-swap, and saturates at the largest index value.

   Impl is the same design at the grain of the code, with the observer, for small constants; TLC checks that Impl refines
   this module (MCImpl, property Counted).  The safety properties are proved in CounterProof.   *)
EXTENDS Integers

CONSTANTS L,        \* length of the source
          Max,      \* the largest index value
          Threads,
          Owned     \* skip_to_end destroys what it reserves

ASSUME Sizes == L \in Nat /\ Max \in Nat /\ L <= Max /\ Owned \in BOOLEAN

VARIABLES rsv,      \* the counter
          taken,    \* how many times a position was delivered
          gone,     \* how many times it was destroyed by skip_to_end
          skip      \* skip_to_end has taken effect
vars == <<rsv, taken, gone, skip>>

MinI(a, b) == IF a < b THEN a ELSE b
Sat(x) == MinI(x, Max)
Pos == 0..(L - 1)

Init == /\ rsv = 0
        /\ taken = [p \in Pos |-> 0] /\ gone = [p \in Pos |-> 0]
        /\ skip = FALSE

\* a pull of n elements takes the positions Begin .. End(n) - 1
Begin == rsv
End(n) == MinI(L, Sat(rsv + n))
Pull(n) ==
  /\ rsv' = Sat(rsv + n)
  /\ taken' = [p \in Pos |-> IF Begin <= p /\ p < End(n) THEN taken[p] + 1 ELSE taken[p]]
  /\ UNCHANGED <<gone, skip>>

\* skip_to_end
SkipStore == /\ ~Owned /\ rsv' = L /\ skip' = TRUE /\ UNCHANGED <<taken, gone>>
SkipTake ==
  /\ Owned
  /\ rsv' = Sat(rsv + L) /\ skip' = TRUE
  /\ gone' = [p \in Pos |-> IF rsv <= p THEN gone[p] + 1 ELSE gone[p]]
  /\ UNCHANGED taken

Next == SkipStore \/ SkipTake \/ \E n \in 0..Max : Pull(n)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == /\ rsv \in 0..Max /\ skip \in BOOLEAN
          /\ taken \in [Pos -> Nat] /\ gone \in [Pos -> Nat]

Inv == /\ TypeOK
       /\ \A p \in Pos : taken[p] + gone[p] <= 1
       /\ \A p \in Pos : p >= rsv => taken[p] = 0 /\ gone[p] = 0
       /\ ~skip => \A p \in Pos : p < rsv => taken[p] = 1
       /\ Owned => \A p \in Pos : p < rsv => taken[p] + gone[p] = 1

\* C01: no position is delivered twice; all are delivered when the counter is at the end and nothing was skipped
Once == \A p \in Pos : taken[p] <= 1
All == rsv >= L /\ ~skip => \A p \in Pos : taken[p] = 1
\* C04: without a skip, what was delivered is a prefix
Prefix == ~skip => \A p, q \in Pos : p < q /\ taken[q] = 1 => taken[p] = 1
\* C08: delivered or destroyed, never both; C15: never neither, below the counter
Linear == (\A p \in Pos : taken[p] + gone[p] <= 1) /\ (Owned => \A p \in Pos : p < rsv => taken[p] + gone[p] = 1)
\* C04, C05, C06, C11: the cursor never moves backwards; after the end nothing is delivered
Forward == [][MinI(rsv, L) <= MinI(rsv', L)]_vars
Final == [][rsv >= L => taken' = taken /\ gone' = gone /\ rsv' >= L]_vars
\* C02, C03: a chunk lies inside of the source, begins with the first position which nobody has taken, is bounded, and short only at the end
Chunk(n) == Begin < End(n) => /\ End(n) <= L /\ End(n) - Begin <= n
                              /\ End(n) - Begin < n => End(n) = L
                              /\ \A p \in Pos : Begin <= p => taken[p] = 0
Chunks == \A n \in 1..Max : Chunk(n) /\ (rsv < L => Begin < End(n))
=============================================================================
