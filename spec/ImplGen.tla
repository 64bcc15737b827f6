------------------------------- MODULE ImplGen -------------------------------
(* Behaviours of Impl, written down: the programs of the threads, the schedule, and the events.

   TLC simulates this module; every complete behaviour is printed as one line of JSON.  The harness executes the programs
   under the schedule against the real crate; the events must be the same, one after the other (checked in core.py), and the
   recorded trace is judged by Trace like any other.                                                                      *)
EXTENDS MCImpl, Json

VARIABLES hist, sched, prog, spin
gvars == <<vars, hist, sched, prog, spin>>

Waiting(t) == th[t].pc \in {"yl", "cg"}
Note(t) ==
  /\ sched' = Append(sched, t)
  \* a thread which waits in vain is not chosen again until something has changed
  /\ spin' = [s \in Threads |-> IF <<rsv, yld, done, src, wc>>' # <<rsv, yld, done, src, wc>> THEN 0
                                ELSE IF s = t THEN IF Waiting(t) THEN spin[s] + 1 ELSE 0 ELSE spin[s]]
  /\ hist' = hist \o evs'

GInit == Init /\ hist = <<>> /\ sched = <<>> /\ prog = [t \in Threads |-> <<>>] /\ spin = [t \in Threads |-> 0]

GNext ==
  \/ \E t \in Threads :
       /\ Waiting(t) => spin[t] < 3
       /\ \/ Start(t) /\ Note(t) /\ prog' = prog
          \/ Own(t) /\ Note(t) /\ prog' = prog
          \/ \E op \in Ops : Call(t, op) /\ Note(t) /\ prog' = [prog EXCEPT ![t] = Append(@, op)]
  \/ \E how \in Final :
       /\ \A t \in Threads : th[t].pc = "idle" /\ th[t].left = 0
       /\ Finish(how)
       /\ hist' = hist \o evs'
       /\ UNCHANGED <<sched, prog, spin>>
       /\ PrintT("GEN " \o ToJson([kind |-> Kind, L |-> L, hx |-> Hx, w |-> PanicAt, f |-> ClosurePanicAt, extra |-> Extra, how |-> how,
                                   sched |-> sched, prog |-> [t \in 1..Cardinality(Threads) |-> prog[t]], hist |-> hist']))

GSpec == GInit /\ [][GNext]_gvars
=============================================================================
