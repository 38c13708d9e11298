------------------------------ MODULE ConfigTrace ------------------------------
(* Judges what the real configuration reader made of each file. *)
EXTENDS Config, Json
CONSTANTS TraceFile
VARIABLES i, ok
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Faults(r) == CASE r.g = "good" -> ReadFaults(Meaning(r.conf), r.res)
               [] r.g = "bad" -> BadFaults(r.res)
               [] r.g = "key" -> KeyFaults(r)
               [] r.g = "section" -> SectionFaults(r)
               [] r.g = "sample" -> IF r.ok = 1 THEN {} ELSE {"the sample configuration is refused: " \o r.name}
Init == i \in 1..N /\ ok = FALSE
Next == /\ ~ok /\ ok' = TRUE /\ i' = i
        /\ \A why \in Faults(Trace[i]) \cup (IF Trace[i].crash = 1 THEN {"reading the configuration panicked"} ELSE {}) : PrintT(<< "VIOLATION", "C15", i, why >>)
Spec == Init /\ [][Next]_<< i, ok >>
Consumed == N > 0 /\ TLCGet("stats").distinct = 2 * N
=============================================================================
