------------------------------ MODULE IdleTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of real connections by the promises of Idle.  *)
(* Times are milliseconds.  A write is taken as data when it was completed *)
(* and it counts as timely when it was completed well within the limit     *)
(* that the write before it (or the opening) had set; what happens after   *)
(* an untimely write, or an untimely end of a storage call, is not judged  *)
(* (the machine stalled).                                                  *)
(***************************************************************************)
EXTENDS Json, Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS TraceFile, Slack, Eps, Margin
VARIABLES i, H
I == INSTANCE Idle WITH Ttl <- 0, Parts <- 1, MaxNow <- 0, Holds <- FALSE, Bug <- "none",
                        now <- 0, last <- 0, part <- 0, busy <- FALSE, dl <- 0, up <- "", open <- FALSE, hist <- << >>
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Begins == {k \in 1..N : Trace[k].e = "begin"}
(* before: when the write that is under way began; ok: everything so far was timely *)
Conn0 == [h |-> << >>, before |-> 0, held |-> FALSE, ok |-> TRUE]
Hist0(b) == [ttl |-> b.ttl, line |-> i, c |-> [x \in 1..b.nc |-> Conn0], crash |-> FALSE, done |-> FALSE]

Last1(cn) == LET y == {x \in DOMAIN cn.h : cn.h[x].k \in {"open", "data", "saved"}} IN
             IF y = {} THEN 0 ELSE cn.h[CHOOSE x \in y : \A z \in y : z <= x].t
Add(hh, c, k, t) == IF hh.c[c].ok THEN [hh EXCEPT !.c[c].h = Append(@, [k |-> k, t |-> t])] ELSE hh
Sent(hh, c, t) ==
  LET cn == hh.c[c] timely == hh.ttl <= 0 \/ cn.held \/ t <= Last1(cn) + hh.ttl - Margin IN
  IF ~timely THEN [hh EXCEPT !.c[c].ok = FALSE] ELSE Add(hh, c, "data", cn.before)
Upd(hh, e) ==
  CASE e.e = "open" -> Add(hh, e.c, "open", e.t)
    [] e.e = "send" -> [hh EXCEPT !.c[e.c].before = e.t]
    [] e.e = "sent" -> Sent(hh, e.c, e.t)
    [] e.e = "held" -> Add([hh EXCEPT !.c[e.c].held = TRUE], e.c, "save", e.t)
    [] e.e = "released" -> Add([hh EXCEPT !.c[e.c].held = FALSE], e.c, "saved", e.t)
    [] e.e = "closed" -> Add(hh, e.c, "closed", e.t)
    [] e.e = "eof" -> Add(hh, e.c, "eof", e.t)
    [] e.e = "abort" -> Add(hh, e.c, "abort", e.t)
    [] e.e = "late" -> IF e.what = "closed" THEN Add(hh, e.c, "tick", e.t)
                       ELSE IF \E x \in DOMAIN hh.c[e.c].h : hh.c[e.c].h[x].k = "closed" THEN hh ELSE Add(hh, e.c, "late", e.t)
    [] e.e = "undrained" -> Add(hh, e.c, "tick", e.t)
    [] e.e = "nodial" -> hh
    [] e.e = "crash" -> [hh EXCEPT !.crash = TRUE]
    [] e.e = "end" -> [hh EXCEPT !.done = TRUE]
    [] OTHER -> hh
All(hh) == UNION {I!IdleFaults(hh.c[c].h, hh.ttl, Slack, Eps) : c \in DOMAIN hh.c}
           \cup (IF hh.crash THEN {"the gateway process died"} ELSE {})
Init == \E b \in Begins : i = b /\ H = Hist0(Trace[b])
Next == /\ ~H.done
        /\ i' = i + 1
        /\ H' = Upd(H, Trace[i + 1])
        /\ H'.done => /\ \A why \in All(H') : PrintT(<< "VIOLATION", "C10", H.line, why >>)
                      /\ (\E c \in DOMAIN H'.c : ~H'.c[c].ok) => PrintT(<< "UNJUDGED", H.line >>)
Spec == Init /\ [][Next]_<< i, H >>
Consumed == N > 0 /\ TLCGet("stats").distinct = N
=============================================================================
