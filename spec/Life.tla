-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a listener: Run, Stop, clients that connect, use and leave  *)
(* their connections, and times in which the process may open no further   *)
(* descriptor.  Run listens, accepts each waiting connection and starts a  *)
(* handler for it; Stop closes the listener.                               *)
(*                                                                         *)
(* History events:                                                         *)
(*   run           Run was called                                          *)
(*   ran           Run has returned; kept: it had not returned after all   *)
(*                 the time it was given since Stop                        *)
(*   stop          Stop was called and has returned (bad: it panicked)     *)
(*   dial c ok at  client c tried to connect (at: 1 the configured         *)
(*                 address, 0 another one)                                 *)
(*   use c ok      client c sent a packet and was (not) answered           *)
(*   leave c       client c closed its connection                          *)
(*   starve, feed  descriptors ran out, are available again                *)
(*   cpu busy      nothing happened for a while; the processor was (1) or  *)
(*                 was not (0) in use all that time                        *)
(*   crash         the process died                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Conns, MaxLen, Bug

(*------------------------- the promises, on a history --------------------*)
HasB(h, x, k) == \E y \in 1..(x-1) : h[y].k = k
(* Stop was called while Run was running *)
StopAt(h, x) == {y \in 1..(x-1) : h[y].k = "stop" /\ HasB(h, y, "run")}
UsedBefore(h, x, c) == \E y \in 1..(x-1) : IF h[y].k = "use" THEN h[y].c = c /\ h[y].ok = 1 ELSE FALSE
Starved(h, x) == LET y == {z \in 1..(x-1) : h[z].k \in {"starve", "feed"}} IN
                 IF y = {} THEN FALSE ELSE h[CHOOSE z \in y : \A w \in y : w <= z].k = "starve"
LifeFaults(h) ==
  UNION {
    LET e == h[x] running == HasB(h, x, "run") /\ StopAt(h, x) = {} stopped == StopAt(h, x) # {} IN
    CASE e.k = "dial" ->
           (IF running /\ e.at = 1 /\ e.ok = 0 THEN {"a connection was not accepted while the gateway runs"} ELSE {})
           \cup (IF stopped /\ e.ok = 1 THEN {"a connection was accepted after Stop"} ELSE {})
           \cup (IF e.at = 0 /\ e.ok = 1 THEN {"connections are accepted on an address that is not configured"} ELSE {})
      [] e.k = "use" ->
           (IF e.ok = 0 /\ running /\ ~Starved(h, x) THEN {"an accepted connection is not served"} ELSE {})
           \cup (IF e.ok = 0 /\ stopped /\ UsedBefore(h, x, e.c) THEN {"an open connection is no longer served after Stop"} ELSE {})
           \cup (IF e.ok = 1 /\ ~HasB(h, x, "run") THEN {"served before Run"} ELSE {})
      [] e.k = "ran" -> IF stopped THEN {} ELSE {"Run returned although Stop was not called"}
      [] e.k = "kept" -> {"Run does not return after Stop"}
      [] e.k = "stop" -> IF e.bad = 1 THEN {"Stop panicked or did not return"} ELSE {}
      [] e.k = "cpu" -> IF e.busy = 1 /\ ~Starved(h, x) THEN {"the gateway spins"} ELSE {}
      [] e.k = "crash" -> {"the process died"}
      [] OTHER -> {}
    : x \in DOMAIN h}

(*-------------------------------- the design -----------------------------*)
VARIABLES run,      \* "no", "listen", "returned"
          lis,      \* the listener is open
          con,      \* state of each client: "none", "waiting" (not accepted yet), "served", "gone"
          starved, hist
vars == << run, lis, con, starved, hist >>
Log(e) == hist' = Append(hist, e)
Room == Len(hist) < MaxLen
Init == run = "no" /\ lis = FALSE /\ con = [c \in Conns |-> "none"] /\ starved = FALSE /\ hist = << >>
Run == /\ Room /\ run = "no" /\ run' = "listen" /\ lis' = TRUE /\ Log([k |-> "run"]) /\ UNCHANGED << con, starved >>
Stop == /\ Room
        /\ lis' = (IF Bug = "deaf" THEN lis ELSE FALSE)
        /\ con' = [c \in Conns |-> IF con[c] = "waiting" \/ (Bug = "dropall" /\ con[c] = "served") THEN "gone" ELSE con[c]]
        /\ Log([k |-> "stop", bad |-> IF (Bug = "nolistener" /\ run = "no") \/ (Bug = "twice" /\ ~lis /\ run # "no") THEN 1 ELSE 0])
        /\ UNCHANGED << run, starved >>
Full == Bug = "serial" /\ \E c \in Conns : con[c] = "served"
Accept(c) == /\ con[c] = "waiting" /\ lis /\ run = "listen" /\ ~starved /\ ~Full
             /\ con' = [con EXCEPT ![c] = "served"] /\ UNCHANGED << run, lis, starved, hist >>
Return == /\ run = "listen" /\ (~lis \/ (Bug = "fragile" /\ starved)) /\ Bug # "spin"
          /\ run' = "returned" /\ lis' = FALSE /\ Log([k |-> "ran"]) /\ UNCHANGED << con, starved >>
(* what is due happens before the clients act again *)
Settled == ~ENABLED Return /\ \A c \in Conns : ~ENABLED Accept(c)
Dial(c, at) == /\ Room /\ Settled /\ con[c] = "none"
               /\ LET ok == IF lis /\ (at = 1 \/ Bug = "anywhere") THEN 1 ELSE 0 IN
                  /\ con' = [con EXCEPT ![c] = IF ok = 1 THEN "waiting" ELSE "none"]
                  /\ Log([k |-> "dial", c |-> c, ok |-> ok, at |-> at])
               /\ UNCHANGED << run, lis, starved >>
Use(c) == /\ Room /\ Settled /\ con[c] # "none"
          /\ Log([k |-> "use", c |-> c, ok |-> IF con[c] = "served" THEN 1 ELSE 0]) /\ UNCHANGED << run, lis, con, starved >>
Leave(c) == /\ Room /\ Settled /\ con[c] # "none" /\ con' = [con EXCEPT ![c] = "none"] /\ Log([k |-> "leave", c |-> c])
            /\ UNCHANGED << run, lis, starved >>
Starve == /\ Room /\ Settled /\ run = "listen" /\ starved' = ~starved /\ Log([k |-> IF starved THEN "feed" ELSE "starve"])
          /\ UNCHANGED << run, lis, con >>
Look == /\ Room /\ Settled /\ Log([k |-> "cpu", busy |-> IF run = "listen" /\ (~lis \/ starved) THEN 1 ELSE 0]) /\ UNCHANGED << run, lis, con, starved >>
Next == Run \/ Stop \/ Return \/ Starve \/ Look \/ \E c \in Conns : Accept(c) \/ Use(c) \/ Leave(c) \/ \E at \in {0, 1} : Dial(c, at)
Spec == Init /\ [][Next]_vars
Kept == LifeFaults(hist) = {}
(* after Stop, Run returns *)
Fair == Spec /\ WF_vars(Return)
Returns == []((run = "listen" /\ ~lis) => <>(run = "returned"))
(* bound for exploring: the last look is free *)
=============================================================================
