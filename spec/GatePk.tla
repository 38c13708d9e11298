------------------------------- MODULE GatePk -------------------------------
(***************************************************************************)
(* Concrete packets for the abstract kinds the gateway specification       *)
(* speaks of; functions of a key, a packet identifier and a number n that  *)
(* becomes the navigation time of the first position (unique per scenario, *)
(* so that a stored record can be attributed to its packet).               *)
(***************************************************************************)
EXTENDS EgtsGen

Flat(s) == FoldLeft(LAMBDA a, x : a \o x, << >>, s)
Tag(n) == LE32(200000000 + 1000 * n)

PosSub(k) == [t |-> 16, v |-> Read(PosDataL, GenBytes(PosDataL, k, NoForce), 1).v]
(* hemispheres and zero coordinates come up often *)
PosSub2(k) ==
  LET p == PosSub(k) w == Rnd(Key(k, 90), 6) IN
  IF w = 0 THEN [p EXCEPT !.v.LAT = Zero4] ELSE IF w = 1 THEN [p EXCEPT !.v.LAHS = 1, !.v.LOHS = 1] ELSE p
SideTypes == << 5, 9, 15, 17, 18, 18, 19, 20, 21, 24, 24, 25, 27, 27, 27 >>
Side(k) ==
  LET t == Pick(Key(k, 1), SideTypes)
      v == SubVal(t, Key(k, 2)) IN
  [t |-> t, v |-> IF t = 27 THEN [v EXCEPT !.RDF = 0, !.LLSVU = Rnd(Key(k, 3), 3), !.LLSD = RBytes(Key(k, 5), 4)]
                  ELSE IF t = 25 /\ v.CN \in {110, 111} THEN [v EXCEPT !.CN = 7] ELSE v]
Cnt(cn, v3) == [t |-> 25, v |-> [CN |-> cn, CNV |-> v3]]
Numbers(k) ==
  LET lo == Cnt(110, RBytes(Key(k, 1), 3) \o << 0 >>) hi == Cnt(111, << RByte(Key(k, 2)), 0, 0, 0 >>) w == Rnd(Key(k, 3), 3) IN
  IF w = 0 THEN << lo >> ELSE IF w = 1 THEN << lo, hi >> ELSE << hi, lo >>
Digits(k, n) == [i \in 1..n |-> 48 + Rnd(Key(k, i), 10)]
(* mostly digits; also leading zeros, padding, letters *)
Imei(k) ==
  LET d == Digits(Key(k, 1), 15) w == Rnd(Key(k, 2), 8) m == 1 + Rnd(Key(k, 3), 5) IN
  IF w = 0 THEN [i \in 1..15 |-> IF i <= m THEN 48 ELSE d[i]]
  ELSE IF w = 1 THEN [i \in 1..15 |-> IF i > 15 - m THEN 32 ELSE d[i]]
  ELSE IF w = 2 THEN [i \in 1..15 |-> IF i <= m THEN 32 ELSE d[i]]
  ELSE IF w = 3 THEN [i \in 1..15 |-> IF i % 4 = 0 THEN 65 + ((i + 25 * m) % 26) ELSE IF i % 4 = 1 THEN 97 + i ELSE d[i]]
  ELSE IF w = 4 THEN [i \in 1..15 |-> IF i > 15 - m THEN 48 ELSE d[i]]
  ELSE d
Ident(k, full) ==
  LET b == SubBytes(1, Key(k, 1), << 1, IF full THEN 255 ELSE IF Rnd(Key(k, 2), 4) = 0 THEN 0 ELSE 2 + ((Rnd(Key(k, 3), 128) * 2) % 256) >>)
      v == Read(TermIdentityL, b, 1).v IN
  [t |-> 1, v |-> IF v.IMEIE = 1 THEN [v EXCEPT !.IMEI = Imei(Key(k, 4))] ELSE v]
Auth(k) == [t |-> 7, v |-> SubVal(7, k)]
Confirm(k) == [t |-> 0, v |-> [CRN |-> R16(Key(k, 1)), RST |-> RByte(Key(k, 2))]]

(* record: rn, oid; obj = 1 if the object identifier is present *)
Rec(k, rn, oid, obj, subs) ==
  LET fl == RndByte(Key(k, 1))
      h == RecHeader(Key(k, 2), (fl - (fl % 2)) + obj) IN
  [h |-> [h EXCEPT !.RN = rn % 65536, !.OID = IF obj = 1 THEN oid ELSE Zero4], subs |-> subs]

Hdr(k, pt, pid, routed) ==
  LET fl == IF Rnd(Key(k, 3), 4) = 0 THEN Rnd(Key(k, 4), 256) ELSE Rnd(Key(k, 2), 4)     \* any prefix, encryption, compression, priority
      h == PkHeader(Key(k, 1), pt, (IF routed THEN 32 ELSE 0) + (fl - 32 * ((fl \div 32) % 2))) IN [h EXCEPT !.PID = pid]

(* the first position of the packet gets the navigation time of n *)
SetFirst(recs, n) ==
  LET has(i) == \E j \in DOMAIN recs[i].subs : recs[i].subs[j].t = 16
      is == {i \in DOMAIN recs : has(i)} IN
  IF is = {} THEN recs
  ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y
           js == {j \in DOMAIN recs[i].subs : recs[i].subs[j].t = 16}
           j == CHOOSE x \in js : \A y \in js : x <= y
       IN [recs EXCEPT ![i].subs[j].v.NTM = Tag(n)]

Slots(k, n, pos) ==
  Flat([j \in 1..n |-> LET kk == Key(k, j) IN
        IF pos /\ Rnd(Key(kk, 1), 2) = 0
        THEN << PosSub2(Key(kk, 2)) >>
        ELSE << Side(Key(kk, 2)) >>])
(* a parked vehicle repeats itself: some subrecords come twice or more, in a row or later on *)
Again(k, subs) ==
  IF subs = << >> \/ Rnd(Key(k, 1), 3) # 0 THEN subs
  ELSE LET j == 1 + Rnd(Key(k, 2), Len(subs)) m == 1 + Rnd(Key(k, 3), 2)
           ok == subs[j].t # 1 /\ ~(subs[j].t = 25 /\ subs[j].v.CN \in {110, 111})
           more == [x \in 1..m |-> subs[j]] IN
       IF ~ok THEN subs ELSE IF Rnd(Key(k, 4), 4) = 0 THEN subs \o more
       ELSE SubSeq(subs, 1, j) \o more \o SubSeq(subs, j + 1, Len(subs))
Repeat(k, recs) == [i \in 1..Len(recs) |-> [recs[i] EXCEPT !.subs = Again(Key(k, i), @)]]
(* record numbers: most count up, some count down, are all equal, jump, or wrap around *)
RnOf(k, i) ==
  LET w == Rnd(Key(k, 3), 10) rn0 == R16(Key(k, 5)) IN
  IF w = 0 THEN 65000 - i ELSE IF w = 1 THEN rn0 ELSE IF w = 2 THEN R16(Key(Key(k, 6), i)) ELSE IF w = 3 THEN (65534 + i) % 65536
  ELSE IF w = 4 THEN (rn0 + 256 * i) % 65536 ELSE IF w = 5 THEN 65535 * ((i + rn0) % 2) ELSE (rn0 + i) % 65536
TeleRecs(k, n, m, width) ==
  LET obj == Rnd(Key(k, 1), 2) oid == RBytes(Key(k, 2), 4)
      one(i) ==
        LET kk == Key(k, 100 + i)
            withPos == i = 1 \/ Rnd(Key(kk, 1), 2) = 0
            raw == Slots(Key(kk, 2), Rnd(Key(kk, 3), width + 1), withPos)
            all == IF i = 1 THEN Append(raw, PosSub2(Key(kk, 4))) ELSE raw
            hasPos == \E j \in DOMAIN all : all[j].t = 16
            subs == IF hasPos /\ Rnd(Key(kk, 8), 3) = 0 THEN all \o Numbers(Key(kk, 9)) ELSE all
        IN Rec(Key(kk, 5), RnOf(Key(k, 3), i), IF hasPos THEN oid ELSE RBytes(Key(kk, 6), 4), IF hasPos THEN obj ELSE Rnd(Key(kk, 7), 2), subs)
  IN Repeat(Key(k, 4), SetFirst([i \in 1..m |-> one(i)], n))

App(k, pid, recs) == WritePacket(Hdr(Key(k, 9), 1, pid, Rnd(Key(k, 8), 5) = 0), WriteRecords(recs))
Tele(k, pid, n) == App(k, pid, TeleRecs(Key(k, 1), n, 1 + Rnd(Key(k, 2), 3), 3))
Small(k, pid, n) == WritePacket(Hdr(Key(k, 9), 1, pid, FALSE),
  WriteRecords(SetFirst(<< Rec(Key(k, 1), R16(Key(k, 2)), RBytes(Key(k, 3), 4), 1, << PosSub2(Key(k, 4)) >>) >>, n)))
Many(k, pid, n) == App(k, pid, TeleRecs(Key(k, 1), n, 12 + Rnd(Key(k, 2), 20), 2))
Quiet(k, pid) == App(k, pid, [i \in 1..(1 + Rnd(Key(k, 1), 3)) |->
  Rec(Key(k, 10 + i), RnOf(Key(k, 2), i), RBytes(Key(k, 20 + i), 4), Rnd(Key(k, 30 + i), 2), Slots(Key(k, 40 + i), Rnd(Key(k, 50 + i), 3), FALSE))])
(* identification requests: alone, with positions before or behind them, in any record and place, more than one,
   next to a confirmation *)
Idents(k, pid, n) ==
  LET w == Rnd(Key(k, 1), 4)
      id == IF w = 3 THEN Auth(Key(k, 2)) ELSE Ident(Key(k, 2), w = 0)
      other == IF Rnd(Key(k, 7), 2) = 0 THEN Auth(Key(k, 8)) ELSE Ident(Key(k, 8), FALSE)
      rn == R16(Key(k, 9))
      one(x, subs) == Rec(Key(k, 30 + x), rn + x, RBytes(Key(k, 4), 4), Rnd(Key(k, 40 + x), 2), subs)
      tele == TeleRecs(Key(k, 6), n, 1, 2)
      side == Side(Key(k, 10)) conf == Confirm(Key(k, 11))
      v == Rnd(Key(k, 5), 12)
  IN App(k, pid,
       CASE v \in 0..3 -> << one(1, << id >>) >>
         [] v \in 4..5 -> << one(1, << id >>) >> \o tele
         [] v = 6 -> tele \o << one(1, << id >>) >>
         [] v = 7 -> << one(1, << side >>), one(2, << >>), one(3, << side, id >>), one(4, << side >>) >>
         [] v = 8 -> << one(1, << id, other >>) >>
         [] v = 9 -> << one(1, << id >>), one(2, << other >>) >> \o tele
         [] v = 10 -> << one(1, << id >>), one(2, << conf >>) >>
         [] OTHER -> << one(1, << conf, id >>) >> \o tele)
Confs(k, pid) == App(k, pid, [i \in 1..(1 + Rnd(Key(k, 1), 3)) |->
  Rec(Key(k, 10 + i), 100 + i, Zero4, 0, [j \in 1..(1 + Rnd(Key(k, 20 + i), 2)) |-> Confirm(Key(k, 30 + 10 * i + j))])])
(* confirmations next to telemetry: any number, in any record and place; now and then the telemetry has no position *)
Insert(s, at, x) == SubSeq(s, 1, at) \o << x >> \o SubSeq(s, at + 1, Len(s))
MixedOf(k, pid, n, pos) ==
  LET t0 == TeleRecs(Key(k, 1), n, 1 + Rnd(Key(k, 2), 2), 2)
      q0 == [i \in 1..(1 + Rnd(Key(k, 12), 2)) |-> Rec(Key(k, 13 + i), 60 + i, Zero4, 0, << Side(Key(k, 16 + i)) >>)]
      start == IF ~pos /\ Rnd(Key(k, 11), 3) = 0 THEN q0 ELSE t0
      m == Pick(Key(k, 3), << 1, 1, 2, 3, 4, 6, 12 >>)
      put(rs, j) ==
        LET kk == Key(k, 100 + j) at == Rnd(Key(kk, 1), Len(rs) + 1) i == 1 + Rnd(Key(kk, 2), Len(rs)) c == Confirm(Key(kk, 3)) IN
        IF Rnd(Key(kk, 4), 3) = 0 THEN Insert(rs, at, Rec(Key(kk, 5), 300 + j, Zero4, 0, << c >>))
        ELSE [rs EXCEPT ![i].subs = Insert(@, Rnd(Key(kk, 6), Len(@) + 1), c)]
  IN App(k, pid, FoldLeft(put, start, [j \in 1..m |-> j]))
Mixed(k, pid, n) == MixedOf(k, pid, n, FALSE)
(* responses: without records, with confirmations, and now and then with anything else *)
Resp(k, pid) ==
  LET w == Rnd(Key(k, 3), 6)
      rec(j) == IF w < 4 THEN Rec(Key(k, 4), 5, Zero4, 0, [x \in 1..(1 + Rnd(Key(k, 5), 3)) |-> Confirm(Key(k, 10 + x))])
                ELSE Rec(Key(k, 20 + j), R16(Key(k, 30 + j)), RBytes(Key(k, 40 + j), 4), Rnd(Key(k, 50 + j), 2),
                         (IF Rnd(Key(k, 60 + j), 2) = 0 THEN << Confirm(Key(k, 70 + j)) >> ELSE << >>) \o
                         (IF w = 5 /\ j = 1 THEN << [PosSub2(Key(k, 80)) EXCEPT !.v.NTM = LE32(190000000 + 100 * pid)] >> ELSE << >>) \o
                         Slots(Key(k, 90 + j), Rnd(Key(k, 100 + j), 3), FALSE) \o
                         (IF Rnd(Key(k, 110 + j), 4) = 0 THEN << Ident(Key(k, 120 + j), FALSE) >> ELSE << >>)) IN
  WritePacket(Hdr(Key(k, 9), 0, pid, FALSE),
    BodyOf(0, R16(Key(k, 1)), IF Rnd(Key(k, 2), 3) = 0 THEN 0 ELSE IF Rnd(Key(k, 7), 2) = 0 THEN RByte(Key(k, 8)) ELSE Pick(Key(k, 12), << 1, 2, 128, 129, 137, 153 >>),
           IF w = 0 THEN << >> ELSE [j \in 1..(IF w < 3 THEN 1 ELSE 1 + Rnd(Key(k, 6), 3)) |-> rec(j)]))
(* many readings of each kind, all different *)
Dense(k, pid, n) ==
  LET many(m, f(_)) == [i \in 1..m |-> f(Key(Key(k, 7), i))]
      p(x) == PosSub2(Key(x, 1))
      a(x) == [t |-> 24, v |-> SubVal(24, Key(x, 2))]
      s(x) == [t |-> 18, v |-> Read(AdSensorsL, SubBytes(18, Key(x, 3), << 2, 255 >>), 1).v]
      l(x) == LET v == SubVal(27, Key(x, 4)) IN [t |-> 27, v |-> [v EXCEPT !.RDF = 0, !.LLSVU = Rnd(Key(x, 5), 3), !.LLSD = RBytes(Key(x, 6), 4)]]
      subs == many(8, p) \o many(8, a) \o many(3, s) \o many(8, l) \o many(8, a) \o Numbers(Key(k, 8)) IN
  App(k, pid, SetFirst(<< Rec(Key(k, 5), R16(Key(k, 9)), RBytes(Key(k, 6), 4), 1, subs) >>, n))
(* very many records, and very many positions in one record *)
Crowded(k, pid, n, m) ==
  LET rn0 == R16(Key(k, 3)) h == Rec(Key(k, 4), 1, Zero4, 0, << >>)
      first == << Rec(Key(k, 5), rn0, RBytes(Key(k, 6), 4), 1, << PosSub2(Key(k, 7)) >>) >> IN
  App(k, pid, SetFirst(first, n) \o [i \in 1..m |-> [h EXCEPT !.h.RN = (rn0 + i) % 65536, !.h.TMFE = 0, !.h.EVFE = 0]])
Hollow(k, pid, m) == LET h == Rec(Key(k, 4), 1, Zero4, 0, << >>) IN App(k, pid, [i \in 1..m |-> [h EXCEPT !.h.RN = i, !.h.TMFE = 0, !.h.EVFE = 0]])
Track(k, pid, n, m) ==
  LET one == PosSub(Key(k, 7))
      subs == [i \in 1..m |-> [one EXCEPT !.v.NTM = LE32(70000 + 3 * i), !.v.SPDR = (10 * i) % 16000]] IN
  App(k, pid, SetFirst(<< Rec(Key(k, 5), 9, RBytes(Key(k, 6), 4), 1, subs) >>, n))
MultiOid(k, pid, n) ==
  App(k, pid, SetFirst(<< Rec(Key(k, 1), 1, << 1, 2, 3, 4 >>, 1, << PosSub2(Key(k, 2)) >>),
                          Rec(Key(k, 3), 2, << 5, 6, 7, 8 >>, 1, << PosSub2(Key(k, 4)) >>) >>, n))

(*------------------------------- damage ----------------------------------*)
Flip(b, i, bit) == [b EXCEPT ![i] = @ ^^ Pow2[bit]]
ReHcs(b) == LET n == IF Bit(b[3], 5) = 1 THEN 16 ELSE 11 IN [b EXCEPT ![n] = Crc8(SubSeq(b, 1, n - 1))]
ReFrame(b, body) == WritePacket(Without(Read(HeaderL, b, 1).v, {"HL", "FDL", "HCS"}), body)
BodyPart(b) == LET n == IF Bit(b[3], 5) = 1 THEN 16 ELSE 11 IN SubSeq(b, n + 1, Len(b) - 2)
Damage(k, b, how) ==
  LET n == IF Bit(b[3], 5) = 1 THEN 16 ELSE 11 len == Len(b) body == BodyPart(b) IN
  CASE how = "hcs" -> [b EXCEPT ![n] = (@ + 1 + Rnd(Key(k, 1), 255)) % 256]
    [] how = "head" -> LET i == Pick(Key(k, 1), << 2, 3, 5, 8, 9, 10 >>) IN
                       Flip(b, i, IF i = 3 THEN Pick(Key(k, 2), << 0, 1, 2, 3, 4, 6, 7 >>) ELSE Rnd(Key(k, 2), 8))
    [] how = "crc" -> Flip(b, len - Rnd(Key(k, 1), 2), Rnd(Key(k, 2), 8))
    [] how = "data" -> Flip(b, n + 1 + Rnd(Key(k, 1), Len(body)), Rnd(Key(k, 2), 8))
    [] how = "type" -> ReHcs([b EXCEPT ![10] = 2 + Rnd(Key(k, 1), 254)])
    [] how = "nobody" -> ReFrame(b, << >>)
    [] how = "cut" -> ReFrame(b, SubSeq(body, 1, 1 + Rnd(Key(k, 1), Len(body) - 1)))
    [] how = "rl" -> ReFrame(b, [body EXCEPT ![1] = (@ + 1 + Rnd(Key(k, 1), 40)) % 256])
    [] how = "mut" -> ReFrame(b, [i \in 1..Len(body) |-> IF Rnd(Key(k, i), 12) = 0 THEN RByte(Key(k, 1000 + i)) ELSE body[i]])
    [] how = "unsub" -> ReFrame(b, WriteRecord(Rec(Key(k, 1), 1, Zero4, 0, << >>)) \o
                         (LET m == Pick(Key(k, 3), << 0, 1, 2, 4, 6, 7, 9, 20 >>)
                              d == << Pick(Key(k, 4), << 99, 2, 3, 4, 6, 8, 10, 14, 20, 20, 22, 23, 26, 28, 33, 63, 64, 128, 255 >>) >> \o LE16(m) \o RBytes(Key(k, 5), m) IN Write(RecordL, Rec(Key(k, 2), 2, Zero4, 0, << >>).h @@ [RL |-> Len(d)]) \o d))
Hows == << "hcs", "head", "crc", "data", "type", "nobody", "cut", "rl", "mut", "unsub" >>
=============================================================================
