----------------------------- MODULE FanoutTrace -----------------------------
(* Judges histories of the real Repository by the promises of Fanout. *)
EXTENDS Json, Naturals, Sequences, TLC
CONSTANTS TraceFile
VARIABLES i, ok
F == INSTANCE Fanout WITH Msgs <- {}, MaxStores <- 0, Bug <- "none", n <- 0, at <- << >>, bad <- << >>, hist <- << >>
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
(* each line is the history of one scenario *)
Init == i \in 1..N /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE /\ i' = i
        /\ \A why \in F!FanFaults(Trace[i].h) \cup (IF Trace[i].crash = 1 THEN {"the process died"} ELSE {}) :
              PrintT(<< "VIOLATION", "C12", i, why >>)
Spec == Init /\ [][Next]_<< i, ok >>
Consumed == N > 0 /\ TLCGet("stats").distinct = 2 * N
=============================================================================
