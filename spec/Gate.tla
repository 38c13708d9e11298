-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* The gateway as a state machine: every connection is served by its own   *)
(* process that takes packets in order, offers each telemetry packet's     *)
(* record to every store in turn, and then answers.  Clients send packets  *)
(* of every kind, something that is not EGTS, and end the stream whenever  *)
(* they like; stores accept or refuse each record after any delay.         *)
(*                                                                         *)
(* hist[c] is the history of connection c in the terms of GateHist, and    *)
(* the properties checked here are the very formulas that judge recorded   *)
(* histories of the real gateway.  Bug names a design error; every one of  *)
(* them must be caught (see tools/designbugs).                             *)
(***************************************************************************)
EXTENDS GateHist
CONSTANTS Conns, Stores, MaxPk, Kinds, Bug
VARIABLES sent,   \* packets sent so far, per connection
          inq,    \* sent and not yet taken by the gateway
          up,     \* "open" or "eof": the client's side
          pc,     \* idle, save, saving, reply, result, refuse, closed
          cur,    \* packet number in hand
          store,  \* store to be offered the record next
          failed, \* some store has refused the packet in hand
          hist
vars == << sent, inq, up, pc, cur, store, failed, hist >>

Mark(c, j) == << c, j, 0, 0 >>
PosModel(c, j) == << [lat |-> Mark(c, j), lats |-> 0, lon |-> Zero4, lons |-> 0, spd |-> 0, t |-> Mark(c, j)] >>
ExpModel(c, j, pos) == [NoExp EXCEPT !.cids = {Zero4}, !.nav = pos[1].t, !.pkid = LE16(10 * c + j) \o << 0, 0 >>]
(* packet j of connection c, of a given kind *)
Pk(kind, c, j) ==
  LET pid == 10 * c + j pos == PosModel(c, j) p == Plain("app", pid) IN
  CASE kind = "pos" -> [p EXCEPT !.rns = << 1, 2 >>, !.pos = pos, !.exp = ExpModel(c, j, pos), !.codes = {0}]
    [] kind = "nopos" -> [p EXCEPT !.rns = << 3 >>, !.codes = {0}]
    [] kind = "ident" -> [p EXCEPT !.rns = << 4 >>, !.ident = TRUE, !.codes = {0}]
    [] kind = "mixed" -> [p EXCEPT !.rns = << 5, 6 >>, !.mixed = TRUE, !.pos = pos, !.exp = ExpModel(c, j, pos), !.codes = {0}]
    [] kind = "conf" -> Plain("conf", pid)
    [] kind = "resp" -> Plain("resp", pid)
    [] kind = "bad" -> [Plain("bad", pid) EXCEPT !.codes = {138}]
RecOf(d) == [ok |-> 1, pos |-> d.pos, cnt |-> Len(d.pos), nav |-> d.exp.nav, cid |-> Zero4, imei |-> << >>,
             an |-> << >>, liq |-> << >>, pkid |-> d.exp.pkid, rcv |-> 1]

Init == /\ sent = [c \in Conns |-> << >>]
        /\ inq = [c \in Conns |-> << >>]
        /\ up = [c \in Conns |-> "open"]
        /\ pc = [c \in Conns |-> "idle"]
        /\ cur = [c \in Conns |-> 0]
        /\ store = [c \in Conns |-> 1]
        /\ failed = [c \in Conns |-> FALSE]
        /\ hist = [c \in Conns |-> << >>]

Log(c, e) == hist' = [hist EXCEPT ![c] = Append(@, e)]
Cur(c) == sent[c][cur[c]]

(*------------------------------- the clients ----------------------------*)
Send(c, kind) ==
  /\ up[c] = "open" /\ Len(sent[c]) < MaxPk
  /\ LET j == Len(sent[c]) + 1 d == Pk(kind, c, j) IN
     /\ sent' = [sent EXCEPT ![c] = Append(@, d)]
     /\ inq' = [inq EXCEPT ![c] = Append(@, j)]
     /\ Log(c, [k |-> "pk", d |-> d])
  /\ UNCHANGED << up, pc, cur, store, failed >>
SendAlien(c) ==
  /\ up[c] = "open"
  /\ inq' = [inq EXCEPT ![c] = Append(@, 0)]
  /\ up' = [up EXCEPT ![c] = "alien"]
  /\ Log(c, [k |-> "alien"])
  /\ UNCHANGED << sent, pc, cur, store, failed >>
Eof(c) ==
  /\ up[c] = "open"
  /\ up' = [up EXCEPT ![c] = "eof"]
  /\ Log(c, [k |-> "eof"])
  /\ UNCHANGED << sent, inq, pc, cur, store, failed >>

(*------------------------------- the gateway ----------------------------*)
First(c, d) ==
  CASE d.k = "bad" -> "refuse"
    [] d.k = "resp" -> "idle"
    [] d.k = "conf" -> IF Bug = "answerconf" THEN "reply" ELSE "idle"
    [] Bug = "dropmixed" /\ d.mixed -> "idle"
    [] Bug = "ackfirst" /\ d.pos # << >> -> "reply"
    [] d.pos # << >> -> "save"
    [] OTHER -> "reply"
Take(c) ==
  /\ pc[c] = "idle" /\ inq[c] # << >> /\ Head(inq[c]) # 0
  /\ cur' = [cur EXCEPT ![c] = Head(inq[c])]
  /\ inq' = [inq EXCEPT ![c] = Tail(@)]
  /\ store' = [store EXCEPT ![c] = 1]
  /\ failed' = [failed EXCEPT ![c] = FALSE]
  /\ pc' = [pc EXCEPT ![c] = First(c, sent[c][Head(inq[c])])]
  /\ UNCHANGED << sent, up, hist >>
Locked(c) == Bug = "lock" /\ \E o \in Conns : o # c /\ pc[o] = "saving"
SaveBegin(c) ==
  /\ pc[c] = "save" /\ ~Locked(c)
  /\ pc' = [pc EXCEPT ![c] = "saving"]
  /\ LET j == IF Bug = "shared" /\ \E o \in Conns : pc[o] = "saving" THEN cur[CHOOSE o \in Conns : pc[o] = "saving"] ELSE cur[c] IN
     Log(c, [k |-> "save", i |-> cur[c], s |-> store[c],
             rec |-> RecOf(IF Bug = "shared" /\ j <= Len(sent[c]) /\ \E o \in Conns : o # c /\ pc[o] = "saving"
                           THEN sent[CHOOSE o \in Conns : o # c /\ pc[o] = "saving"][1] ELSE Cur(c))])
  /\ UNCHANGED << sent, inq, up, cur, store, failed >>
AfterSaves == IF Bug = "ackfirst" THEN "idle" ELSE "reply"
SaveEnd(c, ok) ==
  /\ pc[c] = "saving"
  /\ Log(c, [k |-> "saved", i |-> cur[c], s |-> store[c], ok |-> ok, same |-> 1])
  /\ failed' = [failed EXCEPT ![c] = @ \/ ok = 0]
  /\ store' = [store EXCEPT ![c] = @ + 1]
  /\ pc' = [pc EXCEPT ![c] = IF store[c] = Stores \/ (Bug = "stopfirst" /\ ok = 0) THEN AfterSaves
                             ELSE IF Bug = "asyncack" /\ store[c] = 1 THEN "reply" ELSE "save"]
  /\ UNCHANGED << sent, inq, up, cur >>
Answer(c, d, bad) ==
  [k |-> "resp", whole |-> TRUE, rpid |-> d.pid, lib |-> 0, plain |-> TRUE, b |-> << >>,
   pr |-> IF bad THEN 155 ELSE 0,
   confs |-> [x \in 1..Len(d.rns) |-> << d.rns[x], IF bad THEN 155 ELSE 0 >>]]
Reply(c) ==
  /\ pc[c] = "reply"
  /\ LET d == Cur(c)
         rs == IF Bug = "stale" /\ cur[c] > 1 THEN [d EXCEPT !.rns = sent[c][cur[c]-1].rns \o @] ELSE d
     IN Log(c, [k |-> "reply", r |-> Answer(c, rs, failed[c] /\ Bug # "successonfail")])
  /\ pc' = [pc EXCEPT ![c] = IF Cur(c).ident \/ (Bug = "stickyresult" /\ \E j \in 1..cur[c] : sent[c][j].ident) THEN "result"
                             ELSE IF Bug = "ackfirst" /\ Cur(c).pos # << >> THEN "save" ELSE "idle"]
  /\ UNCHANGED << sent, inq, up, cur, store, failed >>
Result(c) ==
  /\ pc[c] = "result"
  /\ Log(c, [k |-> "reply", r |-> [k |-> "result", whole |-> TRUE, rpid |-> 0, pr |-> 0, confs |-> << >>, lib |-> 0, plain |-> TRUE, b |-> << >>]])
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ UNCHANGED << sent, inq, up, cur, store, failed >>
Refuse(c) ==
  /\ pc[c] = "refuse"
  /\ Log(c, [k |-> "reply", r |-> [Answer(c, Cur(c), FALSE) EXCEPT !.pr = IF Bug = "wrongcode" THEN 137 ELSE 138]])
  /\ pc' = [pc EXCEPT ![c] = IF Bug = "closeonbad" THEN "closing" ELSE "idle"]
  /\ UNCHANGED << sent, inq, up, cur, store, failed >>
Close(c) ==
  /\ \/ pc[c] = "closing"
     \/ pc[c] = "idle" /\ (IF inq[c] = << >> THEN up[c] = "eof" ELSE Head(inq[c]) = 0)
  /\ Log(c, [k |-> "closed", pre |-> IF up[c] = "eof" THEN 0 ELSE 1])
  /\ pc' = [pc EXCEPT ![c] = "closed"]
  /\ UNCHANGED << sent, inq, up, cur, store, failed >>

Client(c) == (\E kind \in Kinds : Send(c, kind)) \/ SendAlien(c) \/ Eof(c)
Serve(c) == Take(c) \/ SaveBegin(c) \/ Reply(c) \/ Result(c) \/ Refuse(c) \/ Close(c)
Stored(c) == \E ok \in {0, 1} : SaveEnd(c, ok)
Next == \E c \in Conns : Client(c) \/ Serve(c) \/ Stored(c)
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -----------------------------*)
(* a finished connection has kept every promise ... *)
Kept == \A c \in Conns : pc[c] = "closed" => Faults(hist[c], Stores) = {}
(* ... and an unfinished one has broken none: cut off now, it is without fault *)
Unbroken == \A c \in Conns : Faults(Append(hist[c], [k |-> "abort"]), Stores) = {}
TypeOK == \A c \in Conns : /\ pc[c] \in {"idle", "save", "saving", "reply", "result", "refuse", "closing", "closed"}
                           /\ store[c] \in 1..(Stores + 1) /\ cur[c] \in 0..Len(sent[c])

(* Connection c makes progress although nothing is assumed about the others: *)
(* their clients and storage calls may stop at any point for ever.           *)
Me == CHOOSE c \in Conns : TRUE
Fair == Spec /\ WF_vars(Serve(Me)) /\ WF_vars(Stored(Me))
Served == \A j \in 1..MaxPk : [](Len(sent[Me]) >= j => <>(cur[Me] >= j \/ pc[Me] = "closed"))
Drained == (up[Me] \in {"eof", "alien"}) ~> (pc[Me] = "closed")
=============================================================================
