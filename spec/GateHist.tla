------------------------------ MODULE GateHist ------------------------------
(***************************************************************************)
(* What a connection of the gateway may do, stated on its history.         *)
(*                                                                         *)
(* A history is the sequence of the events of one connection:              *)
(*   [k |-> "pk", d]               the client has sent a whole packet      *)
(*   [k |-> "save", i, s, rec]     store s is given a record of packet i   *)
(*   [k |-> "saved", i, s, ok, same]   ... and has returned                *)
(*   [k |-> "reply", r]            the client has received a frame         *)
(*   [k |-> "alien"]               bytes that are not EGTS begin here      *)
(*   [k |-> "eof"], [k |-> "abort"], [k |-> "closed", pre], [k |-> "late"] *)
(* The same formulas are the properties of the design model (Gate.tla) and *)
(* the oracle for histories recorded from the real gateway (GateTrace).    *)
(***************************************************************************)
EXTENDS EgtsWire

When(c, p, why) == IF c THEN {<< p, why >>} ELSE {}
Flatten(s) == FoldLeft(LAMBDA a, x : a \o x, << >>, s)

(*------------------------- what a packet asks for ------------------------*)
Subs(body) == Flatten([i \in 1..Len(body) |-> body[i].RD])
OfType(subs, t) == SelectSeq(subs, LAMBDA x : x.SRT = t)
PosOf(v) == [lat |-> v.LAT, lats |-> IF v.LAT = Zero4 THEN 0 ELSE v.LAHS,
             lon |-> v.LONG, lons |-> IF v.LONG = Zero4 THEN 0 ELSE v.LOHS, spd |-> v.SPD, t |-> v.NTM]
Positions(body) == LET p == OfType(Subs(body), 16) IN [i \in 1..Len(p) |-> PosOf(p[i].SRD)]
AnOf(x) ==
  IF x.SRT = 24 THEN << [n |-> x.SRD.SensorNumber, v |-> x.SRD.Value] >>
  ELSE IF x.SRT = 18
    THEN Flatten([i \in 1..8 |-> IF x.SRD[Nth("ASFE")[i]] = 1 THEN << [n |-> i, v |-> x.SRD[Nth("ANS")[i]]] >> ELSE << >>])
  ELSE << >>
Bin(n) == IF n = 0 THEN << 48 >> ELSE << 49 >>
LiqOf(x) ==
  IF x.SRT # 27 THEN << >>
  ELSE LET v == x.SRD IN
       << [n |-> v.LLSN, m |-> v.MADDR, e |-> Bin(v.LLSEF), u |-> Bin(v.LLSVU \div 2) \o Bin(v.LLSVU % 2),
           mm |-> IF v.LLSVU \in {0, 1} THEN v.LLSD ELSE Zero4, l |-> IF v.LLSVU = 2 THEN v.LLSD ELSE Zero4] >>
(* counters 110 (three low bytes) and 111 (high byte) carry the record number *)
CntSeq(r) == SelectSeq(r.RD, LAMBDA x : x.SRT = 25 /\ x.SRD.CN \in {110, 111})
AllCN(s, p, c) == \A i \in 1..Len(s) : s[i].SRD.CN = (IF i % 2 = p THEN c ELSE 221 - c)
CntPlain(s) == \/ \A i \in 1..Len(s) : s[i].SRD.CN = 110
               \/ Len(s) % 2 = 0 /\ (AllCN(s, 1, 110) \/ AllCN(s, 1, 111))
CntLast(s, c) == LET x == SelectSeq(s, LAMBDA y : y.SRD.CN = c) IN IF x = << >> THEN Zero4 ELSE x[Len(x)].SRD.CNV
CntHighOk(s) == \A i \in 1..Len(s) : s[i].SRD.CN = 111 => s[i].SRD.CNV[2] = 0 /\ s[i].SRD.CNV[3] = 0
Numbering(pid, body) ==
  LET rs == SelectSeq(body, LAMBDA r : CntSeq(r) # << >>) IN
  IF rs = << >> THEN [any |-> FALSE, v |-> LE16(pid) \o << 0, 0 >>]
  ELSE LET s == CntSeq(rs[Len(rs)]) lo == CntLast(s, 110) hi == CntLast(s, 111) IN
       [any |-> ~(CntPlain(s) /\ CntHighOk(s)), v |-> << lo[1], lo[2], lo[3], hi[1] >>]
Printable(b) == \A i \in DOMAIN b : b[i] \in 32..126
Oid(r) == IF r.OBFE = 1 THEN r.OID ELSE Zero4
(* the record to be stored; any: names of fields this specification leaves open *)
Expected(pid, body) ==
  LET subs == Subs(body)
      ids == OfType(subs, 1)
      liq == OfType(subs, 27)
      cids == {Oid(body[i]) : i \in {j \in 1..Len(body) : OfType(body[j].RD, 16) # << >>}}
      pos == OfType(subs, 16)
      num == Numbering(pid, body)
  IN [cids |-> cids,
      imei |-> IF ids = << >> THEN << >> ELSE ids[Len(ids)].SRD.IMEI,
      nav |-> IF pos = << >> THEN Zero4 ELSE pos[Len(pos)].SRD.NTM,
      an |-> Flatten([i \in 1..Len(subs) |-> AnOf(subs[i])]),
      liq |-> Flatten([i \in 1..Len(subs) |-> LiqOf(subs[i])]),
      pkid |-> num.v,
      any |-> (IF num.any THEN {"pkid"} ELSE {})
              \cup (IF Len(ids) > 1 \/ (ids # << >> /\ ~Printable(ids[Len(ids)].SRD.IMEI)) THEN {"imei"} ELSE {})
              \cup (IF \E i \in DOMAIN liq : liq[i].SRD.RDF = 1 \/ liq[i].SRD.LLSVU = 3 THEN {"liq"} ELSE {})]

NoExp == [cids |-> {}, imei |-> << >>, nav |-> Zero4, an |-> << >>, liq |-> << >>, pkid |-> Zero4, any |-> {}]
Plain(k, pid) == [k |-> k, pid |-> pid, codes |-> {}, rns |-> << >>, ident |-> FALSE, mixed |-> FALSE, pos |-> << >>, exp |-> NoExp]
(* positions a damaged packet would have carried: they must never turn up *)
Hidden(b) ==
  LET r == Read(HeaderL, b, 1) IN
  IF ~r.ok THEN << >>
  ELSE LET left == Len(b) - r.p - 1                     \* up to the checksum at the end
           n == IF r.v.FDL <= left + 2 THEN r.v.FDL ELSE left IN
       IF n < 1 THEN << >> ELSE LET c == ReadRecords(Sub(b, r.p, n)) IN IF c.ok THEN Positions(c.v) ELSE << >>

(* kinds: app (telemetry), conf (only confirmations), resp, bad, odd (header *)
(* length contradicts the header), unk (outside this specification)          *)
Describe(b) ==
  LET p == ReadPacket(b) pid == U16(b, 8) odd == Len(b) < 11 \/ b[4] # HeaderSize(p.h) IN
  IF odd THEN [Plain("odd", pid) EXCEPT !.pos = Hidden(b)]
  ELSE IF p.u THEN Plain("unk", pid)
  ELSE IF ~p.ok THEN [Plain("bad", pid) EXCEPT !.codes = p.codes, !.pos = Hidden(b)]
  ELSE IF p.h.PT = 0 THEN [Plain("resp", pid) EXCEPT !.pos = Positions(p.body.SDR)]
  ELSE LET subs == Subs(p.body)
           nconf == Len(OfType(subs, 0))
           rns == [i \in 1..Len(p.body) |-> p.body[i].RN] IN
       IF subs # << >> /\ nconf = Len(subs) THEN [Plain("conf", pid) EXCEPT !.rns = rns]
       ELSE [k |-> "app", pid |-> pid, codes |-> {0}, rns |-> rns,
             ident |-> \E i \in DOMAIN subs : subs[i].SRT \in {1, 7}, mixed |-> nconf > 0,
             pos |-> Positions(p.body), exp |-> Expected(pid, p.body)]

(*--------------------------- what a frame says ---------------------------*)
(* the header announces EGTS, neither encrypted nor compressed: what follows can be read as it is *)
InClear(h) == h.PRV = 1 /\ h.PRF = 0 /\ h.ENA = 0 /\ h.CMP = 0
Frame(b, lib) ==
  LET p == ReadPacket(b)
      junk == [k |-> "junk", whole |-> p.ok, rpid |-> -1, pr |-> -1, confs |-> << >>, lib |-> lib, b |-> b,
               plain |-> IF p.ok THEN InClear(p.h) ELSE TRUE] IN
  IF ~p.ok \/ FrameSize(b) # Len(b) THEN [junk EXCEPT !.whole = FALSE]
  ELSE IF p.h.PT = 0
  THEN LET subs == Subs(p.body.SDR) IN
       IF \E i \in DOMAIN subs : subs[i].SRT # 0 THEN junk
       ELSE [junk EXCEPT !.k = "resp", !.rpid = p.body.RPID, !.pr = p.body.PR,
                         !.confs = [i \in 1..Len(subs) |-> << subs[i].SRD.CRN, subs[i].SRD.RST >>]]
  ELSE LET subs == Subs(p.body) IN
       IF Len(subs) = 1 /\ subs[1].SRT = 9 THEN [junk EXCEPT !.k = "result", !.pr = subs[1].SRD.RCD] ELSE junk
Success(r) == r.pr = 0 /\ \A i \in DOMAIN r.confs : r.confs[i][2] = 0

(*---------------------------- reading a history --------------------------*)
Ev(h, k) == SelectSeq(h, LAMBDA e : e.k = k)
Has(h, k) == \E i \in DOMAIN h : h[i].k = k
Packets(h) == LET p == Ev(h, "pk") IN [i \in 1..Len(p) |-> p[i].d]
(* packets the specification speaks about: those before the first whose handling it leaves open *)
Settled(ps) ==
  LET open == {i \in DOMAIN ps : ps[i].k \in {"odd", "unk"}} IN
  IF open = {} THEN ps ELSE SubSeq(ps, 1, (CHOOSE i \in open : \A j \in open : i <= j) - 1)
Loose(ps) == \E i \in DOMAIN ps : ps[i].k \in {"odd", "unk"}
Frames(h) == LET r == Ev(h, "reply") IN [i \in 1..Len(r) |-> r[i].r]
Crns(r) == [i \in 1..Len(r.confs) |-> r.confs[i][1]]
Answers(r, d) == /\ r.rpid = d.pid
                 /\ IF d.k = "app" THEN Crns(r) = d.rns ELSE r.pr \in d.codes /\ r.confs = << >>
(* as: the answers given, ds: the packets to be answered *)
PrefixMatch(as, ds, n) == \A i \in 1..n : Answers(as[i], ds[i])
Min2(a, b) == IF a < b THEN a ELSE b
(* part: answers may be missing at the end; more: others may follow *)
Match(as, ds, part, more) ==
  /\ part \/ Len(as) >= Len(ds)
  /\ more \/ Len(as) <= Len(ds)
  /\ PrefixMatch(as, ds, Min2(Len(as), Len(ds)))
Pids(ds) == {ds[i].pid : i \in DOMAIN ds}

AnswerFaults(h) ==
  LET ps == Packets(h) sp == Settled(ps)
      ds == SelectSeq(sp, LAMBDA d : d.k \in {"app", "bad"})
      apps == SelectSeq(ds, LAMBDA d : d.k = "app")
      bads == SelectSeq(ds, LAMBDA d : d.k = "bad")
      as == SelectSeq(Frames(h), LAMBDA r : r.k = "resp")
      part == Has(h, "abort") more == Loose(ps)
      ap == Pids(apps) bp == Pids(bads)
      toA == SelectSeq(as, LAMBDA r : r.rpid \notin bp)
      toB == SelectSeq(as, LAMBDA r : r.rpid \notin ap)
      okA == Match(toA, apps, part, more) okB == Match(toB, bads, part, more)
  IN IF Match(as, ds, part, more) THEN {}
     ELSE IF ap \cap bp # {} THEN {<< "C01", "answers do not match the packets" >>, << "C06", "answers do not match the packets" >>}
     ELSE When(~okA, "C01", "telemetry packets not answered once each, in order, with their record numbers")
          \cup When(~okB, "C06", "damaged packets not refused once each with the matching code")
          \cup When(okA /\ okB, "C01", "replies out of order")

(* the results that follow identification requests *)
ResultFaults(h) ==
  LET ps == Packets(h) sp == Settled(ps) fs == Frames(h)
      ids == SelectSeq(sp, LAMBDA d : d.k = "app" /\ d.ident)
      idp == Pids(ids)
      res == {i \in DOMAIN fs : fs[i].k = "result"}
      follows(i) == i > 1 /\ fs[i-1].k = "resp" /\ fs[i-1].rpid \in idp
      part == Has(h, "abort")
  IN IF Loose(ps) THEN {}
     ELSE When(\E i \in res : ~follows(i), "C11", "result code that does not follow the answer to an identification request")
          \cup When(\E i \in res : fs[i].pr # 0, "C11", "result code other than 0")
          \cup When(\E i \in res : fs[i].lib # 0, "C11", "result code packet not accepted by the library")
          \cup When(\E i \in res : ~fs[i].plain, "C11", "result code packet announced as encrypted, compressed or of another version")
          \cup When(Cardinality(res) > Len(ids), "C11", "more result codes than identification requests")
          \cup When(~part /\ Cardinality(res) < Len(ids), "C11", "identification request without a decodable result code")

(* which reply events answer packet i: the n-th reply with its identifier, if it is the n-th such packet *)
RepliesTo(h, ps, i) ==
  LET rank == Cardinality({j \in 1..i : ps[j].pid = ps[i].pid /\ ps[j].k \in {"app", "bad"}})
      rs == SelectSeq([x \in 1..Len(h) |-> x],
                      LAMBDA x : h[x].k = "reply" /\ (IF h[x].k = "reply" THEN h[x].r.k = "resp" /\ h[x].r.rpid = ps[i].pid ELSE FALSE))
      one == Cardinality({j \in DOMAIN ps : ps[j].pid = ps[i].pid /\ ps[j].k \in {"app", "bad"}}) = 1
  IN IF one THEN Range(rs) ELSE IF rank <= Len(rs) THEN {rs[rank]} ELSE {}
IsSaved(e, i, s, ok) == e.k = "saved" /\ (IF e.k = "saved" THEN e.i = i /\ e.s = s /\ e.ok = ok ELSE FALSE)
(* every store's verdict on a packet decides what its answer reports *)
SuccessFaults(h, stores) ==
  LET ps == Packets(h) sp == Settled(ps) IN
  UNION {LET xs == RepliesTo(h, ps, i) IN
         UNION {LET okBefore(s) == \E y \in 1..(x-1) : IsSaved(h[y], i, s, 1)
                    bad(s) == \E y \in DOMAIN h : IsSaved(h[y], i, s, 0)
                    good == Success(h[x].r)
                IN When(good /\ \E s \in 1..stores : ~okBefore(s), "C02", "success reported before every storage accepted the data")
                   \cup When(good /\ \E s \in 1..stores : bad(s), "C02", "success reported although a storage refused the data")
                   \cup When(~good /\ \A s \in 1..stores : okBefore(s) /\ ~bad(s), "C02", "failure reported although every storage accepted the data")
                : x \in xs}
         : i \in {j \in DOMAIN sp : sp[j].k = "app" /\ sp[j].pos # << >>}}
  \cup UNION {UNION {When(~Success(h[x].r), "C02", "failure reported for a packet without positions") : x \in RepliesTo(h, ps, i)}
              : i \in {j \in DOMAIN sp : sp[j].k = "app" /\ sp[j].pos = << >>}}

SavesOf(h, s) == SelectSeq(h, LAMBDA e : e.k = "save" /\ (IF e.k = "save" THEN e.s = s ELSE FALSE))
StripPos(ps) == [i \in 1..Len(ps) |-> Without(ps[i], {"n"})]
StoreFaults(h, stores) ==
  LET ps == Packets(h) sp == Settled(ps)
      due == SelectSeq([i \in 1..Len(sp) |-> i], LAMBDA i : sp[i].k = "app" /\ sp[i].pos # << >>)
      loose == Loose(ps) part == Has(h, "abort")
  IN UNION {
       LET sv == SavesOf(h, s)
           got == [x \in 1..Len(sv) |-> sv[x].i]
           n == Min2(Len(got), Len(due))
       IN When(\/ SubSeq(got, 1, n) # SubSeq(due, 1, n)
               \/ (~part /\ Len(got) < Len(due)) \/ (~loose /\ Len(got) > Len(due)),
               "C03", "records not stored once each in the order of their packets")
          \cup UNION {LET d == ps[sv[x].i] rec == sv[x].rec e == d.exp IN
               IF d.k = "unk" THEN {}
               ELSE IF d.k # "app" THEN
                 When(d.k = "bad", "C06", "something of a damaged packet was stored")
                 \cup When(d.k = "odd", "C08", "something of an inconsistent packet was stored")
                 \cup When(d.k \in {"conf", "resp"}, "C23", "something of a confirmation was stored")
               ELSE IF rec.ok = 0 THEN {<< "C03", "stored record cannot be serialised" >>, << "C04", "stored record cannot be serialised" >>}
               ELSE When(StripPos(rec.pos) # d.pos, "C03", "stored positions differ from those transmitted")
                    \cup When(rec.cnt # Len(d.pos), "C03", "position count differs")
                    \cup When(rec.nav # e.nav, "C04", "navigation time is not that of the last position")
                    \cup When(rec.cid \notin e.cids, "C04", "object identifier differs")
                    \cup When(Cardinality(e.cids) > 1, "C04", "multi-oid")
                    \cup When("imei" \notin e.any /\ rec.imei # e.imei, "C04", "IMEI differs")
                    \cup When(rec.an # e.an, "C04", "analog sensor readings differ")
                    \cup When("liq" \notin e.any /\ rec.liq # e.liq, "C04", "liquid level readings differ")
                    \cup When("pkid" \notin e.any /\ rec.pkid # e.pkid, "C04", "packet number differs")
                    \cup When(rec.rcv = 0, "C04", "time of reception is wrong")
               : x \in DOMAIN sv}
       : s \in 1..stores}
  \cup UNION {IF h[x].k # "saved" THEN {}
              ELSE When(h[x].same = 0, "C04", "record changed while it was being stored")
                   \cup When(h[x].same = 0, "C05", "record changed while it was being stored")
              : x \in DOMAIN h}

(* a record offered to one storage is offered to all of them, exactly once, whatever they return *)
OfferFaults(h, stores) ==
  LET ps == Packets(h) sp == Settled(ps)
      n(i, s) == Len(SelectSeq(SavesOf(h, s), LAMBDA e : e.i = i))
      some(i) == \E s \in 1..stores : n(i, s) > 0
      mine == {i \in DOMAIN sp : sp[i].k = "app" /\ sp[i].pos # << >>}
  IN When(\E i \in mine : some(i) /\ (\E s \in 1..stores : n(i, s) > 1), "C12", "a storage was offered a record again")
     \cup When(Has(h, "closed") /\ ~Has(h, "abort") /\ ~Has(h, "late") /\ \E i \in mine : some(i) /\ \E s \in 1..stores : n(i, s) = 0,
               "C12", "a storage was not offered a record that others were offered")

FrameFaults(h) ==
  LET fs == Frames(h) IN
  When(\E i \in DOMAIN fs : fs[i].k = "junk" /\ ~fs[i].whole, "C21", "a frame sent by the gateway is not self-consistent")
  \cup When(\E i \in DOMAIN fs : ~fs[i].plain, "C21", "a frame sent by the gateway is announced as encrypted, compressed or of another version")
  \cup When(\E i \in DOMAIN fs : fs[i].k = "junk" /\ fs[i].whole, "C01", "a packet that is neither an answer nor a result code")

ConfirmFaults(h) ==
  LET ps == Packets(h) sp == Settled(ps) fs == Frames(h)
      cs == {i \in DOMAIN sp : sp[i].k \in {"conf", "resp"}}
      cp == {sp[i].pid : i \in cs} \ {ps[i].pid : i \in {j \in DOMAIN ps : ps[j].k \notin {"conf", "resp"}}}
  IN When(\E i \in DOMAIN fs : fs[i].k = "resp" /\ fs[i].rpid \in cp, "C23", "a confirmation was answered")

CloseFaults(h) ==
  LET ps == Packets(h)
      early == \E i \in DOMAIN h : h[i].k = "closed" /\ (IF h[i].k = "closed" THEN h[i].pre = 1 ELSE FALSE)
      fine == ~Has(h, "alien") /\ ~Loose(ps) /\ ~Has(h, "abort")
  IN When(early /\ fine, "C09", "a connection that sends EGTS was closed")

LateFaults(h) ==
  LET ls == Ev(h, "late") IN
  UNION {When(ls[i].iso = 1, "C05", "a connection is held up by another one")
         \cup When(ls[i].what = "closed" /\ Has(h, "alien"), "C09", "a stream that is not EGTS was not closed")
         \cup When(ls[i].what = "answer", "C08", "an inconsistent packet was neither refused nor its connection closed")
         : i \in DOMAIN ls}
  \cup When(Has(h, "undrained"), "C10", "connection not released after its client ended it")

(* all faults of one connection's history *)
Faults(h, stores) ==
  LET base == AnswerFaults(h) \cup ResultFaults(h) \cup SuccessFaults(h, stores) \cup StoreFaults(h, stores)
              \cup OfferFaults(h, stores) \cup FrameFaults(h) \cup ConfirmFaults(h) \cup CloseFaults(h) \cup LateFaults(h)
      ps == Packets(h)
      props == {v[1] : v \in base}
  IN base
     \cup When(Has(h, "alien") /\ props \cap {"C01", "C03", "C06"} # {}, "C09", "a connection that ends with a stream that is not EGTS is mishandled")
     \cup When((\E i \in DOMAIN ps : ps[i].k \in {"conf", "resp"} \/ ps[i].mixed) /\ props \cap {"C01", "C03"} # {},
               "C23", "a session with confirmations is disturbed")
     \cup When((\E i \in DOMAIN ps : ps[i].k = "bad") /\ props \cap {"C01", "C03", "C09"} # {},
               "C06", "a session with damaged packets is disturbed")
=============================================================================
