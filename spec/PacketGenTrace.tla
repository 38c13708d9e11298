--------------------------- MODULE PacketGenTrace ---------------------------
(***************************************************************************)
(* Judges recorded runs of the real packet-gen.  Each line is one run: the *)
(* request (want), the answer given, the bytes the server received, exit   *)
(* status and duration.  The verdict uses Acked of the model PacketGen.    *)
(***************************************************************************)
EXTENDS GateHist, Json
CONSTANTS TraceFile
VARIABLES i
PG == INSTANCE PacketGen WITH Limit <- 2, Bug <- "none", phase <- 0, clock <- 0, valid <- 0, sent <- 0, ans <- 0, parts <- 0, code <- 0
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

Bytes(reply) == FoldLeft(LAMBDA a, p : a \o p.b, << >>, reply)
(* the first frame of the answer, and whether all of it has come *)
FirstFrame(b) ==
  IF Len(b) < 10 THEN << >> ELSE IF b[1] # 1 \/ FrameSize(b) < 11 \/ Len(b) < FrameSize(b) THEN << >> ELSE SubSeq(b, 1, FrameSize(b))
(* when it is complete: the delay of the pieces up to it *)
ArrivesAt(reply, n) ==
  FoldLeft(LAMBDA a, p : IF a.n >= n THEN a ELSE [n |-> a.n + Len(p.b), ms |-> a.ms + p.ms], [n |-> 0, ms |-> 0], reply).ms
SentFaults(o) ==
  LET d == Describe(o.got) p == ReadPacket(o.got) w == o.want
      pos == d.pos subs == Subs(p.body) lq == SelectSeq(subs, LAMBDA x : x.SRT = 27) IN
  IF Len(o.got) < 11 THEN {"no packet was sent"}
  ELSE IF FrameSize(o.got) # Len(o.got) THEN {"not exactly one packet was sent"}
  ELSE IF d.k # "app" THEN {"the packet sent is not a well-formed telemetry packet"}
  ELSE IF ~InClear(p.h) THEN {"the packet is announced as encrypted, compressed or of another version"}
  ELSE (IF d.pid # w.pid THEN {"packet identifier differs"} ELSE {})
       \cup (IF Len(pos) # 1 THEN {"not exactly one position was sent"}
             ELSE (IF pos[1].t # w.t THEN {"time differs"} ELSE {})
                  \cup (IF pos[1].lat # w.lat \/ pos[1].lon # w.lon THEN {"coordinates differ"} ELSE {})
                  \cup (IF (w.lat # Zero4 /\ pos[1].lats # w.lats) \/ (w.lon # Zero4 /\ pos[1].lons # w.lons) THEN {"hemisphere differs"} ELSE {})
                  \cup (IF d.exp.cids # {w.oid} THEN {"object identifier differs"} ELSE {}))
       \cup (IF lq = << >> THEN (IF \A j \in DOMAIN o.names : o.names[j] # "liquid" THEN {} ELSE {"liquid level missing"})
             ELSE IF lq[1].SRD.LLSD # w.liq THEN {"liquid level differs"} ELSE {})
Rns(b) == LET p == ReadPacket(b) IN {p.body[j].RN : j \in DOMAIN p.body}
ExitFaults(o) ==
  LET b == Bytes(o.reply) f == FirstFrame(b)
      sane == Len(o.got) >= 11 /\ (IF Len(o.got) >= 11 THEN Describe(o.got).k = "app" ELSE FALSE)
      at == IF f = << >> THEN 0 ELSE ArrivesAt(o.reply, Len(f))
      acked == f # << >> /\ o.want.send = 1 /\ o.dest = "server" /\ sane /\ at < o.limit
               /\ (IF sane /\ f # << >> THEN PG!Acked(Frame(f, 0), o.want.pid, Rns(o.got)) ELSE FALSE)
      silent == f = << >> /\ o.end = "keep" /\ o.dest = "server" /\ o.want.send = 1 /\ b = << >>
  IN (IF o.exit = 0 /\ ~acked THEN {"success reported although the packet was not acknowledged"} ELSE {})
     \cup (IF o.exit # 0 /\ acked THEN {"failure reported although the packet was acknowledged"} ELSE {})
     \cup (IF silent /\ o.ms < o.limit - 60 THEN {"did not wait for the answer as long as it should"} ELSE {})
     \cup (IF o.ms > o.limit + 8000 THEN {"did not end when the time was up"} ELSE {})
Faults1(o) ==
  (IF o.panic = 1 THEN {"crashed"} ELSE {})
  \cup ExitFaults(o)
  \cup (IF o.dest = "server" /\ o.want.send = 1
        THEN (IF o.conns # 1 THEN {"not exactly one connection was made"} ELSE SentFaults(o)) ELSE {})
  \cup (IF o.want.send = 0 /\ o.got # << >> THEN {"a packet was sent although the request is incomplete or impossible"} ELSE {})
Init == i = 0
Next == /\ i < N /\ i' = i + 1
        /\ \A why \in Faults1(Trace[i']) : PrintT(<< "VIOLATION", "C22", i', why >>)
Spec == Init /\ [][Next]_i
Consumed == N > 0 /\ TLCGet("stats").distinct = N + 1
=============================================================================
