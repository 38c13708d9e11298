-------------------------------- MODULE Idle --------------------------------
(***************************************************************************)
(* The idle limit of one connection, with a clock.  The client sends parts *)
(* of packets (Parts of them make a packet) whenever it likes, falls       *)
(* silent for good, or ends the stream; storage calls may hold the gateway *)
(* for any time.  The gateway closes the connection when no data has come  *)
(* for Ttl units.                                                            *)
(*                                                                         *)
(* History events carry their time t:  open, data, save, saved, recv,      *)
(* closed, eof, abort, late (an answer that was due did not come), end.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Ttl, Parts, MaxNow, Holds, Bug
VARIABLES now, last, part, busy, dl, up, open, hist

(*------------------------- the promises, on a history --------------------*)
(* last sign of life before position x: data, or the end of a storage call *)
LastAt(h, x, ks) == LET y == {i \in 1..(x-1) : h[i].k \in ks} IN IF y = {} THEN 0 ELSE h[CHOOSE i \in y : \A j \in y : j <= i].t
Before(h, x, k) == \E i \in 1..(x-1) : h[i].k = k
(* inside a storage call the gateway cannot look at the connection *)
Held(h, x) == Cardinality({i \in 1..(x-1) : h[i].k = "save"}) > Cardinality({i \in 1..(x-1) : h[i].k = "saved"})
IdleFaults(h, ttl, slack, eps) ==
  UNION {
    LET e == h[x] own == ~Before(h, x, "eof") /\ ~Before(h, x, "abort") IN
    (IF e.k = "closed" /\ own /\ ttl <= 0 THEN {"closed although there is no idle limit"} ELSE {})
    \cup (IF e.k = "closed" /\ own /\ ttl > 0 /\ e.t < LastAt(h, x, {"open", "data"}) + ttl - eps THEN {"a connection that received data within the limit was closed"} ELSE {})
    \cup (IF ttl > 0 /\ own /\ ~Held(h, x) /\ ~Before(h, x, "closed") /\ e.k \in {"data", "closed", "end", "eof", "tick"}
             /\ e.t > LastAt(h, x, {"open", "data", "saved"}) + ttl + slack THEN {"an idle connection was kept beyond the limit"} ELSE {})
    \cup (IF ~own /\ ~Held(h, x) /\ ~Before(h, x, "closed") /\ e.k \in {"closed", "end", "tick"}
             /\ e.t > LastAt(h, x, {"eof", "abort", "saved"}) + slack THEN {"a connection was not released when its client ended it"} ELSE {})
    \cup (IF e.k = "late" THEN {"an active connection is not served"} ELSE {})
    : x \in DOMAIN h}

(*-------------------------------- the design -----------------------------*)
vars == << now, last, part, busy, dl, up, open, hist >>
Log(e) == hist' = Append(hist, e)
Never == 100000
Arm == IF Ttl > 0 \/ Bug = "zero" THEN now + Ttl ELSE Never
Init == /\ now = 0 /\ last = 0 /\ part = 0 /\ busy = FALSE /\ up = "open" /\ open = TRUE
        /\ dl = (IF Bug = "never" THEN Never ELSE Arm) /\ hist = << [k |-> "open", t |-> 0] >>
Data == /\ open /\ up = "open" /\ (last < now \/ Len(hist) = 1) /\ (Ttl <= 0 \/ now < last + Ttl - 1)
        /\ last' = now /\ part' = (part + 1) % Parts
        /\ busy' \in (IF Holds /\ ~busy /\ part' = 0 THEN BOOLEAN ELSE {busy})
        /\ dl' = (IF busy \/ Bug \in {"never", "absolute"} \/ (Bug = "perpacket" /\ part # 0) THEN dl ELSE Arm)
        /\ hist' = hist \o << [k |-> "data", t |-> now] >> \o (IF busy' /\ ~busy THEN << [k |-> "save", t |-> now] >> ELSE << >>)
        /\ UNCHANGED << now, up, open >>
Release == /\ busy /\ busy' = FALSE /\ dl' = (IF Bug \in {"busyclock", "never", "absolute"} THEN dl ELSE Arm)
           /\ Log([k |-> "saved", t |-> now]) /\ UNCHANGED << now, last, part, up, open >>
Silent == /\ open /\ up = "open" /\ up' = "silent" /\ UNCHANGED << now, last, part, busy, dl, open, hist >>
Eof == /\ open /\ up = "open" /\ up' = "eof" /\ Log([k |-> "eof", t |-> now]) /\ UNCHANGED << now, last, part, busy, dl, open >>
Expire == /\ open /\ ~busy /\ (now >= dl \/ up = "eof") /\ ~(Bug = "lateeof" /\ up = "eof" /\ now < dl)
          /\ open' = FALSE /\ Log([k |-> "closed", t |-> now]) /\ UNCHANGED << now, last, part, busy, dl, up >>
(* the gateway acts on a deadline before time goes on *)
Tick == /\ now < MaxNow /\ ~(ENABLED Expire)
        /\ now' = now + 1 /\ Log([k |-> "tick", t |-> now + 1]) /\ UNCHANGED << last, part, busy, dl, up, open >>
Next == Data \/ Release \/ Silent \/ Eof \/ Expire \/ Tick
Spec == Init /\ [][Next]_vars
Kept == IdleFaults(hist, Ttl, 0, 0) = {}
=============================================================================
