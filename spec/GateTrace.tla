----------------------------- MODULE GateTrace ------------------------------
(***************************************************************************)
(* Conformance of the real gateway.  TraceFile holds the recorded events   *)
(* of many scenarios.  Each scenario is one behaviour: its events are      *)
(* taken one by one, what each client wrote is cut into packets as the     *)
(* packets' own headers announce, stored records are attributed to packets *)
(* by the navigation time of their first position, and at the end the      *)
(* formulas of GateHist are evaluated on the history of every connection.  *)
(* Deviations are printed as <<"VIOLATION", property, line, why>>.         *)
(***************************************************************************)
EXTENDS GateHist, Json
CONSTANTS TraceFile, Known
VARIABLES i, H

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Begins == {k \in 1..N : Trace[k].e = "begin"}

Conn0 == [buf |-> << >>, cut |-> FALSE, open |-> FALSE, free |-> FALSE, h |-> << >>]
Hist0(b) == [sc |-> b.sc, kind |-> b.kind, stores |-> b.stores, line |-> i,
             c |-> [x \in 1..b.nc |-> Conn0],
             sv |-> << >>,             \* call number -> <<connection, packet, store>>
             stray |-> 0, again |-> 0, crash |-> FALSE, nodial |-> FALSE, left |-> 0, lost |-> FALSE, done |-> FALSE]

(*-- what a client wrote, packet by packet --*)
RECURSIVE Chop(_)
Chop(cn) ==
  IF cn.cut \/ cn.buf = << >> THEN cn
  ELSE IF cn.buf[1] # 1 THEN [cn EXCEPT !.cut = TRUE, !.buf = << >>, !.h = Append(@, [k |-> "alien"])]
  ELSE IF Len(cn.buf) < 10 THEN cn
  ELSE LET n == IF FrameSize(cn.buf) < 10 THEN 10 ELSE FrameSize(cn.buf) IN
  IF Len(cn.buf) < n THEN cn
  ELSE LET d == Describe(SubSeq(cn.buf, 1, n)) IN
       Chop([cn EXCEPT !.buf = SubSeq(cn.buf, n + 1, Len(cn.buf)), !.cut = d.k = "odd",
                       !.h = Append(@, [k |-> "pk", d |-> d])])
Add(hh, c, ev) == [hh EXCEPT !.c[c].h = Append(@, ev)]

(*-- which packet a stored record belongs to: the first one that starts with the same
     position and that this store has not been given yet, a telemetry packet if there is one --*)
Taken(cn, p, s) == \E x \in DOMAIN cn.h : cn.h[x].k = "save" /\ (IF cn.h[x].k = "save" THEN cn.h[x].i = p /\ cn.h[x].s = s ELSE FALSE)
Owners(hh, s, rec, again) ==
  IF rec.pos = << >> THEN {}
  ELSE UNION {LET cn == hh.c[c] ps == Packets(cn.h) IN
              {<< c, p >> : p \in {q \in DOMAIN ps : ps[q].pos # << >> /\ (IF ps[q].pos = << >> THEN FALSE ELSE ps[q].pos[1].t = rec.pos[1].t)
                                                 /\ (again \/ ~Taken(cn, q, s))}}
              : c \in DOMAIN hh.c}
Prefer(hh, os) ==
  LET apps == {o \in os : Packets(hh.c[o[1]].h)[o[2]].k = "app"} IN IF apps = {} THEN os ELSE apps
Save(hh, e) ==
  LET os == Prefer(hh, Owners(hh, e.s, e.rec, FALSE)) IN
  IF os = {} THEN [hh EXCEPT !.stray = @ + 1, !.again = @ + (IF Owners(hh, e.s, e.rec, TRUE) = {} THEN 0 ELSE 1), !.sv = Append(@, << 0, 0, 0 >>)]
  ELSE LET o == CHOOSE x \in os : \A y \in os : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN
       [Add(hh, o[1], [k |-> "save", i |-> o[2], s |-> e.s, rec |-> e.rec]) EXCEPT !.sv = Append(@, << o[1], o[2], e.s >>)]

Upd(hh, e) ==
  CASE e.e = "open" -> [hh EXCEPT !.c[e.c].open = TRUE]
    [] e.e = "send" -> IF hh.c[e.c].cut THEN hh
                       ELSE [hh EXCEPT !.c[e.c] = Chop([@ EXCEPT !.buf = @ \o e.b])]
    [] e.e = "save" -> Save(hh, e)
    [] e.e = "saved" -> LET o == hh.sv[e.k] IN
                        IF o[1] = 0 THEN hh ELSE Add(hh, o[1], [k |-> "saved", i |-> o[2], s |-> o[3], ok |-> e.ok, same |-> e.same])
    [] e.e = "recv" -> Add(hh, e.c, [k |-> "reply", r |-> Frame(e.b, e.lib)])
    [] e.e = "closed" -> Add(hh, e.c, [k |-> "closed", pre |-> 1 - e.aftereof])
    [] e.e = "eof" -> Add(hh, e.c, [k |-> "eof"])
    [] e.e = "abort" -> Add(hh, e.c, [k |-> "abort"])
    [] e.e = "flood" -> [hh EXCEPT !.c[e.c].free = TRUE, !.c[e.c].cut = TRUE]
    [] e.e = "flooded" -> hh
    [] e.e = "stalled" -> IF e.got = e.of THEN hh ELSE [hh EXCEPT !.lost = TRUE]
    [] e.e = "late" -> Add(hh, e.c, [k |-> "late", what |-> e.what, iso |-> e.iso])
    [] e.e = "undrained" -> Add(hh, e.c, [k |-> "undrained"])
    [] e.e = "goroutines" -> [hh EXCEPT !.left = e.left]
    [] e.e = "nodial" -> [hh EXCEPT !.nodial = TRUE]
    [] e.e = "crash" -> [hh EXCEPT !.crash = TRUE]
    [] e.e = "end" -> [hh EXCEPT !.done = TRUE]

(*----------------------------- the verdict ------------------------------*)
ConnFaults(hh, c) == IF hh.c[c].free THEN {} ELSE Faults(hh.c[c].h, hh.stores)
(* what a connection amounted to, for comparing two that sent the same bytes *)
Outcome(h) ==
  LET fs == Frames(h) sv == Ev(h, "save") IN
  [frames |-> [x \in 1..Len(fs) |-> fs[x].b],
   saved |-> [x \in 1..Len(sv) |-> << sv[x].s, sv[x].i, Without(sv[x].rec, {"rcv"}) >>]]
LooseAny(hh) == \E c \in DOMAIN hh.c : hh.c[c].free \/ Loose(Packets(hh.c[c].h))
Crosstalk(hh) ==
  \E c \in DOMAIN hh.c : \E x \in DOMAIN hh.c[c].h :
    LET e == hh.c[c].h[x] IN
    IF e.k # "reply" THEN FALSE
    ELSE e.r.k = "resp" /\ e.r.rpid \notin Pids(Packets(hh.c[c].h))
         /\ \E c2 \in DOMAIN hh.c : c2 # c /\ e.r.rpid \in Pids(Packets(hh.c[c2].h))
All(hh) ==
  LET per == [c \in DOMAIN hh.c |-> ConnFaults(hh, c)]
      base == UNION {per[c] : c \in DOMAIN hh.c}
              \cup When(hh.stray > 0 /\ ~LooseAny(hh), "C03", "a stored record that belongs to no packet")
              \cup When(hh.again > 0 /\ ~LooseAny(hh), "C12", "a storage was offered a record again")
      real == base \ {<< "C04", "multi-oid" >>}
      tail == \E c \in DOMAIN hh.c : hh.c[c].buf # << >>
      bad == \E c \in DOMAIN hh.c : \E x \in DOMAIN hh.c[c].h :
               IF hh.c[c].h[x].k = "pk" THEN hh.c[c].h[x].d.k = "bad" ELSE FALSE
  IN IF hh.crash THEN {<< "C08", "the gateway process died" >>}
     ELSE base
       \cup When(hh.nodial, "C08", "the gateway no longer accepts connections")
       \cup When(hh.lost, "C01", "answers are lost when the client reads them late")
       \cup When(hh.nodial, "C16", "the gateway does not accept connections")
       \cup When(hh.left > 0, "C10", "goroutines left behind by ended connections")
       \cup When(Crosstalk(hh), "C05", "an answer was sent to another connection")
       \cup When(hh.kind \in {"twin", "cuttail"} /\ hh.stray = 0 /\ \E c \in DOMAIN hh.c : Outcome(hh.c[1].h) # Outcome(hh.c[c].h),
                 "C07", "the same bytes cut differently have another outcome")
       \cup When(hh.kind = "cuttail" /\ tail /\ real # {}, "C07", "a packet cut short by the end of the stream is not ignored")
       \cup When(hh.kind \in {"twin", "seg", "drip"} /\ per[1] \ {<< "C04", "multi-oid" >>} = {} /\ real # {}, "C07", "segmentation changes what is answered or stored")
       \cup When(hh.kind = "fuzz" /\ \E c \in DOMAIN hh.c : c = 1 /\ per[c] # {}, "C08", "inconsistent packets disturb another connection")
       \cup When(hh.kind \in {"iso", "sim"} /\ Cardinality(DOMAIN hh.c) > 1 /\ \E v \in real : v[1] \in {"C01", "C02", "C03", "C04", "C06", "C11"},
                 "C05", "connections served together are not served as alone")
       \cup When(bad /\ hh.stray > 0, "C06", "something of a damaged packet was stored")

Say(v, hh) ==
  IF v[2] \in Known THEN PrintT(<< "KNOWN", v[1], hh.line, v[2] >>)
  ELSE PrintT(<< "VIOLATION", v[1], hh.line, v[2] >>)

Init == \E b \in Begins : i = b /\ H = Hist0(Trace[b])
Next == /\ ~H.done
        /\ i' = i + 1
        /\ H' = Upd(H, Trace[i + 1])
        /\ H'.done => \A v \in All(H') : Say(v, H')
Spec == Init /\ [][Next]_<< i, H >>
(* the line says which state it is: the events of a scenario are taken in their order *)
Where == i
(* one state per event: every line was consumed, and every scenario ended *)
Consumed == N > 0 /\ TLCGet("stats").distinct = N
=============================================================================
