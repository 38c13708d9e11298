------------------------------ MODULE StartupTrace ------------------------------
(* Judges histories of real starts by the promises of Startup. *)
EXTENDS Json, Naturals, Sequences, TLC
CONSTANTS TraceFile
VARIABLES i, ok
F == INSTANCE Startup WITH Stores <- {}, Bug <- "none", x <- << >>, ph <- "", todo <- {}, active <- {}, failed <- FALSE, todeliver <- {}, hist <- << >>
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Init == i \in 1..N /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE /\ i' = i
        /\ \A w \in F!StartFaults(Trace[i].h, Trace[i].x) : PrintT(<< "VIOLATION", w[1], i, w[2] >>)
Spec == Init /\ [][Next]_<< i, ok >>
Consumed == N > 0 /\ TLCGet("stats").distinct = 2 * N
=============================================================================
