--------------------------- MODULE TracePrograms ---------------------------
(* What the compiler did with the programs of Programs.tla: every line of the file is one program, with the verdict about it
   and about its legal twin.                                                                                          *)
EXTENDS Programs

Results == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos
tvars == <<tid, pos, prog, done>>
TInit == tid \in DOMAIN Results /\ pos = 0 /\ prog = Results[tid].p /\ done = FALSE
TSpec == TInit /\ [][FALSE]_tvars

\* the program is one of those which the specification describes
Known == prog \in All

\* a program whose twin is accepted is accepted only if it is legal
Sound == Illegal(prog) /\ Results[tid].twinok = 1 => Results[tid].rejected = 1
=============================================================================
