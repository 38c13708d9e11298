---------------------------- MODULE ConnectorTrace ----------------------------
(* Judges histories of real connectors by the promises of Connector. *)
EXTENDS Json, Naturals, Sequences, TLC
CONSTANTS TraceFile
VARIABLES i, ok
F == INSTANCE Connector WITH Msgs <- {}, MaxEnv <- 0, Bug <- "none", x <- << >>, lazy <- FALSE, ph <- "", up <- FALSE, env <- 0,
                             st <- << >>, again <- << >>, hq <- << >>, hist <- << >>
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Init == i \in 1..N /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE /\ i' = i
        /\ \A why \in F!ConnFaults(Trace[i].h, Trace[i].x) : PrintT(<< "VIOLATION", "C14", i, Trace[i].kind \o ": " \o why >>)
Spec == Init /\ [][Next]_<< i, ok >>
Consumed == N > 0 /\ TLCGet("stats").distinct = 2 * N
=============================================================================
