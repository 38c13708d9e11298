------------------------------ MODULE LifeTrace ------------------------------
(* Judges histories of real listeners by the promises of Life. *)
EXTENDS Json, Naturals, Sequences, TLC
CONSTANTS TraceFile
VARIABLES i, ok
F == INSTANCE Life WITH Conns <- {}, MaxLen <- 0, Bug <- "none", run <- "", lis <- FALSE, con <- << >>, starved <- FALSE, hist <- << >>
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Init == i \in 1..N /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE /\ i' = i
        /\ \A why \in F!LifeFaults(Trace[i].h) : PrintT(<< "VIOLATION", "C16", i, why >>)
Spec == Init /\ [][Next]_<< i, ok >>
Consumed == N > 0 /\ TLCGet("stats").distinct = 2 * N
=============================================================================
