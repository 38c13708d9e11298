----------------------------- MODULE GateScripts -----------------------------
(***************************************************************************)
(* Scenarios for the real gateway.  Scenario number n of Plan is a         *)
(* function of Seed and n; its steps are written as one JSON object to     *)
(* OutDir/n.  The classes:                                                 *)
(*   volume   sessions of all kinds of packets, pipelined or in turn       *)
(*   fault    storages that refuse particular packets                      *)
(*   hold     storage calls that are held while the client waits           *)
(*   damage   sessions with damaged packets                                *)
(*   confirm  confirmations alone, between and inside telemetry            *)
(*   ident    identification requests                                      *)
(*   twin, seg, cuttail   the same stream cut in different ways            *)
(*   alien    streams that turn into something else                        *)
(*   fuzz     inconsistent packets next to an ordinary connection          *)
(*   iso      connections that stall, break or flood next to ordinary ones *)
(*   big      frames near the limits of their length fields                *)
(*   encore   packets sent again, identifiers used again                   *)
(*   slowN    storage calls that take about N seconds                      *)
(*   dripN    a packet that comes in pieces with N/10 seconds in between   *)
(*   storm    many packets of one odd kind in a row, then ordinary ones    *)
(*   long     some hundred packets on one connection                       *)
(*   huge     very many records or positions in one packet                 *)
(*   same     connections that send the same at the same time              *)
(*   pace     the same packets one at a time, all at once, in a few parts  *)
(*   race     connections full of readings at the same time                *)
(*   stall    a client that sends a lot and reads the answers much later   *)
(*   swarm    many connections that send at the same time                  *)
(*   oids     positions of several objects in one packet                   *)
(*   ends     connections that end in every way                            *)
(***************************************************************************)
EXTENDS GatePk, Json
CONSTANTS Seed, PlanFile, OutDir, First
VARIABLES n, done

PlanLines == ndJsonDeserialize(PlanFile)
Plan == [x \in 1..Len(PlanLines) |-> PlanLines[x].c]

Ttl == 30000
Open(c) == [a |-> "open", c |-> c]
Send(c, b) == [a |-> "send", c |-> c, b |-> b]
SendCut(c, b, seg) == [a |-> "send", c |-> c, b |-> b, seg |-> seg]
SendTag(c, p, b, nn, hold, fails) == [a |-> "send", c |-> c, p |-> p, b |-> b, tag |-> Tag(nn), hold |-> hold, fails |-> fails]
Reply(c, k, iso) == [a |-> "reply", c |-> c, n |-> k, iso |-> iso]
Saves(p, ms) == [a |-> "save", p |-> p, ms |-> ms]
SendPar(c, b) == [a |-> "send", c |-> c, b |-> b, par |-> 1]    \* written at the next "fire"
Fire == [a |-> "fire"]
Release(p) == [a |-> "release", p |-> p]
Closed(c) == [a |-> "closed", c |-> c]
Step(a, c) == [a |-> a, c |-> c]
Wait(ms) == [a |-> "wait", ms |-> ms]
Scen(kind, stores, nc, steps) == [kind |-> kind, stores |-> stores, nc |-> nc, ttl |-> Ttl, steps |-> steps]

(* packet j of connection c *)
Pid(c, j) == (4000 * c + 37 + 13 * j) % 65536
Num(c, j) == 40 * c + j
Kinds == << "tele", "tele", "tele", "small", "quiet", "ident", "conf", "resp", "mixed", "bad" >>
MakeAs(kind, k, pid, nn) ==
  CASE kind = "tele" -> Tele(k, pid, nn) [] kind = "small" -> Small(k, pid, nn) [] kind = "many" -> Many(k, pid, nn)
    [] kind = "quiet" -> Quiet(k, pid) [] kind = "ident" -> Idents(k, pid, nn)
    [] kind = "conf" -> Confs(k, pid) [] kind = "resp" -> Resp(k, pid) [] kind = "mixed" -> Mixed(k, pid, nn) [] kind = "mixpos" -> MixedOf(k, pid, nn, TRUE)
    [] kind = "multi" -> MultiOid(k, pid, nn)
    [] kind = "bad" -> Damage(Key(k, 1), Tele(Key(k, 2), pid, nn), Pick(Key(k, 3), Hows))
    [] kind = "harm" -> Damage(Key(k, 1), Tele(Key(k, 2), pid, nn), Pick(Key(k, 3), << "hcs", "crc", "data", "type", "nobody", "unsub" >>))
Make(kind, k, c, j) == MakeAs(kind, k, Pid(c, j), Num(c, j))
(* number of frames a kind is answered with (bad: as long as it stays bad) *)
Ans(kind) == IF kind \in {"conf", "resp"} THEN 0 ELSE IF kind = "ident" THEN 2 ELSE 1

(* a session on connection c: the kinds, sent one by one or several in one write *)
Session(k, c, kinds, together) ==
  LET bs == [j \in DOMAIN kinds |-> Make(kinds[j], Key(k, j), c, j)] IN
  IF together THEN << Send(c, Flat(bs)) >> ELSE [j \in DOMAIN kinds |-> Send(c, bs[j])]
Choose(k, m, ks) == [j \in 1..m |-> Pick(Key(k, j), ks)]
(* lock step: wait for the answers of each packet *)
Turns(k, c, kinds) ==
  Flat([j \in DOMAIN kinds |->
    << Send(c, Make(kinds[j], Key(k, j), c, j)),
       Reply(c, FoldLeft(LAMBDA a, x : a + Ans(x), 0, SubSeq(kinds, 1, j)), 0) >>])

Volume(k, ks, m) ==
  LET kinds == Choose(Key(k, 1), m + Rnd(Key(k, 2), m), ks) w == Rnd(Key(k, 3), 3) IN
  << Open(1) >> \o (IF w = 2 THEN Turns(Key(k, 4), 1, kinds) ELSE Session(Key(k, 4), 1, kinds, w = 1))
Merge2(a, b) == Flat([j \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |->
  (IF j <= Len(a) THEN << a[j] >> ELSE << >>) \o (IF j <= Len(b) THEN << b[j] >> ELSE << >>)])

Fault(k, stores) ==
  LET m == 4 + Rnd(Key(k, 1), 4)
      fail(j) == SelectSeq([s \in 1..stores |-> s], LAMBDA s : Rnd(Key(Key(k, 20 + j), s), 2) = 0)
      pk(j) == Make(Pick(Key(k, 60 + j), << "tele", "small", "tele", "mixed", "small", "ident" >>), Key(k, 40 + j), 1, j) IN
  << Open(1) >> \o Flat([j \in 1..m |->
     << SendTag(1, j, pk(j), Num(1, j), 0, IF Rnd(Key(k, 10 + j), 3) = 0 THEN << >> ELSE fail(j)) >>
     \o (IF Rnd(Key(k, 9), 2) = 0 THEN << Reply(1, j, 0) >> ELSE << >>)])

(* one or two connections whose storage calls are held for a while *)
Hold(k, stores) ==
  LET m == 2 + Rnd(Key(k, 1), 2)
      fails(j) == IF Rnd(Key(k, 30 + j), 3) = 0 THEN << 1 + Rnd(Key(k, 50 + j), stores) >> ELSE << >>
      sends == [j \in 1..m |-> SendTag(1, j, Make(Pick(Key(k, 60 + j), << "tele", "small", "mixpos" >>), Key(k, 40 + j), 1, j), Num(1, j), 1, fails(j))]
      work(j) == Flat([s \in 1..stores |-> << Saves(j, 25), Release(j) >>]) \o << Reply(1, j, 0) >>
  IN << Open(1) >> \o (IF Rnd(Key(k, 2), 2) = 0 THEN sends \o Flat([j \in 1..m |-> work(j)])
                       ELSE Flat([j \in 1..m |-> << sends[j] >> \o work(j)]))

Twin(k) ==
  LET m == 2 + Rnd(Key(k, 1), 3)
      b == Flat([j \in 1..m |-> Make(Pick(Key(k, 10 + j), Kinds), Key(k, 20 + j), 1, j)])
      w == Rnd(Key(k, 2), 4)
      cuts == IF w = 0 /\ Len(b) < 250 THEN [x \in 1..(Len(b) - 1) |-> x]
              ELSE LET S == {1 + Rnd(Key(k, 100 + x), Len(b)) : x \in 1..(3 + Rnd(Key(k, 3), 20))} IN SetToSortSeq(S, <)
  IN << Open(1), Send(1, b), Step("eof", 1), Closed(1), Open(2), SendCut(2, b, cuts) >>
(* the same packets one at a time, all at once, and in a few parts with pauses *)
Pace(k) ==
  LET m == 2 + Rnd(Key(k, 1), 4)
      pk == [j \in 1..m |-> Make(Pick(Key(k, 10 + j), << "small", "tele", "ident", "conf", "resp", "mixed", "harm", "harm", "bad", "quiet" >>), Key(k, 20 + j), 1, j)]
      b == Flat(pk)
      S == SetToSortSeq({1 + Rnd(Key(k, 100 + x), Len(b) - 1) : x \in 1..(1 + Rnd(Key(k, 3), 4))}, <)
      part(i) == SubSeq(b, (IF i = 1 THEN 1 ELSE S[i - 1] + 1), (IF i > Len(S) THEN Len(b) ELSE S[i])) IN
  << Open(1) >> \o Flat([j \in 1..m |-> << Send(1, pk[j]), Wait(8) >>]) \o << Step("eof", 1), Closed(1), Open(2), Send(2, b), Step("eof", 2), Closed(2), Open(3) >>
  \o Flat([i \in 1..(Len(S) + 1) |-> << Send(3, part(i)), Wait(8) >>])
(* the same small packet, its copies cut at successive offsets *)
Seg(k, stores) ==
  LET off == 1 + Rnd(Key(k, 1), 40)
      pk(c) == IF c % 3 = 2 THEN Make("ident", Key(k, 10 + c), c, 1) ELSE Small(Key(k, 10 + c), Pid(c, 1), Num(c, 1)) IN
  << Open(1), Send(1, pk(1)), Reply(1, 1, 0) >>
  \o Flat([x \in 1..12 |-> LET c == x + 1 IN << Open(c), SendCut(c, pk(c), IF c % 4 = 0 THEN << c - 1, c + 7 >> ELSE << (off + c) % Len(pk(c)) >>) >>])
CutTail(k) ==
  LET b == Make(Pick(Key(k, 1), << "tele", "small", "ident" >>), Key(k, 2), 1, 1)
      t == Make(Pick(Key(k, 3), << "tele", "small", "ident", "quiet" >>), Key(k, 4), 1, 2)
      cut == SubSeq(t, 1, IF Rnd(Key(k, 7), 4) = 0 THEN Len(t) - 1 - Rnd(Key(k, 8), 3) ELSE 1 + Rnd(Key(k, 5), Len(t) - 1)) IN
  << Open(1), Send(1, b), Step("eof", 1), Closed(1), Open(2) >>
  \o (IF Rnd(Key(k, 6), 2) = 0 THEN << Send(2, b \o cut) >> ELSE << Send(2, b), Wait(5), Send(2, cut) >>)

Alien(k) ==
  LET m == Rnd(Key(k, 1), 4)
      kinds == Choose(Key(k, 2), m, << "tele", "small", "ident", "conf", "bad" >>)
      before == Flat([j \in DOMAIN kinds |-> Make(kinds[j], Key(k, 10 + j), 1, j)])
      x == Pick(Key(k, 3), << 0, 2, 3, 255, 129, 71, RndByte(Key(k, 4)) >>)
      first == IF x = 1 THEN 0 ELSE x
      good == Make("small", Key(k, 5), 1, 7)
      w == Rnd(Key(k, 6), 3)
      junk == IF w = 0 THEN << first >> \o RBytes(Key(k, 7), 9 + Rnd(Key(k, 8), 30))
              ELSE IF w = 1 THEN << first >> \o Tail(good)
              ELSE << first >> \o RBytes(Key(k, 7), 9) \o good IN
  << Open(1) >> \o (IF Rnd(Key(k, 9), 2) = 0 \/ m = 0 THEN << Send(1, before \o junk) >>
                    ELSE << Send(1, before), Wait(20), Send(1, junk) >>)
  \o << Closed(1) >>

(* an inconsistent packet together with exactly the bytes its header announces *)
Odd(k, w, hl) ==
  LET b == Small(Key(k, 1), Pid(2, 1), Num(2, 1)) len == Len(b) IN
  CASE w = "hl" -> LET fdl == Rnd(Key(k, 2), 60)
                       c == [[b EXCEPT ![4] = hl] EXCEPT ![6] = fdl, ![7] = 0]
                       m == hl + (IF fdl = 0 THEN 0 ELSE fdl + 2)
                       d == IF Len(c) >= m THEN c ELSE c \o RBytes(Key(k, 3), m - Len(c))
                       e == IF hl >= 2 /\ hl <= 11 THEN [d EXCEPT ![11] = Crc8(SubSeq(d, 1, hl - 1))] ELSE d
                       f == IF hl > 11 /\ Rnd(Key(k, 4), 2) = 0 THEN [e EXCEPT ![hl] = Crc8(SubSeq(e, 1, hl - 1))]
                            ELSE [e EXCEPT ![11] = Crc8(SubSeq(e, 1, 10))]
                   IN SubSeq(f, 1, IF m < 10 THEN 10 ELSE m)
    [] w = "hlgood" -> LET c == [b EXCEPT ![4] = hl]
                           m == hl + len - 11 + 0
                           e == [c EXCEPT ![11] = Crc8(SubSeq(c, 1, 10))]
                       IN IF m <= 10 THEN SubSeq(e, 1, 10) ELSE IF m <= len THEN SubSeq(e, 1, m) ELSE e \o Zeros(m - len)
    [] w = "rte" -> LET c == ReHcs([b EXCEPT ![3] = @ ^^ 32]) IN c
    [] w = "junk" -> LET h == << 1, RByte(Key(k, 2)), RByte(Key(k, 3)), RByte(Key(k, 4)), 0, Rnd(Key(k, 5), 80), 0, 1, 1, Rnd(Key(k, 6), 3) >>
                         m == h[4] + (IF h[6] = 0 THEN 0 ELSE h[6] + 2)
                     IN IF m <= 10 THEN h ELSE h \o RBytes(Key(k, 7), m - 10)
Fuzz(k) ==
  << Open(1), Send(1, Make("small", Key(k, 1), 1, 1)), Reply(1, 1, 0) >>
  \o Flat([x \in 1..8 |->
       LET c == x + 1 kk == Key(k, 10 + c)
           w == Pick(Key(kk, 1), << "hl", "hl", "hlgood", "hlgood", "rte", "junk" >>)
           hl == IF Rnd(Key(kk, 3), 2) = 0 THEN Rnd(Key(kk, 2), 22) ELSE Rnd(Key(kk, 2), 256) IN
       << Open(c), Step("mark", c), Send(c, Odd(kk, w, hl)), Step("answer", c) >>])
  \o << Send(1, Make("small", Key(k, 2), 1, 2)), Reply(1, 2, 0) >>
(* frames that are in order around bodies that are not *)
Mutants(k) ==
  << Open(1), Send(1, Make("small", Key(k, 1), 1, 1)), Reply(1, 1, 0), Open(2) >>
  \o [j \in 1..16 |->
       LET kk == Key(k, 10 + j) IN
       Send(2, Damage(Key(kk, 1), Make(Pick(Key(kk, 4), << "tele", "ident", "mixed", "quiet" >>), Key(kk, 2), 2, j), Pick(Key(kk, 3), << "cut", "rl", "mut", "mut", "unsub" >>)))]
  \o << Send(1, Make("small", Key(k, 2), 1, 2)), Reply(1, 2, 0) >>

Filler(m) == [i \in 1..m |-> (i * 7) % 256]
(* total: size of the frame *)
BigBody(rn, m) ==    \* one record, m bytes of body, a dispatcher description fills it
  LET sub == m - 7 - 3 IN
  Write(RecordL, [RL |-> m - 7, RN |-> rn, SSOD |-> 0, RSOD |-> 0, GRP |-> 0, RPP |-> 0, TMFE |-> 0, EVFE |-> 0, OBFE |-> 0,
                  OID |-> Zero4, EVID |-> Zero4, TM |-> Zero4, SST |-> 2, RST |-> 2])
  \o << 5 >> \o LE16(sub) \o << 1, 1, 2, 3, 4 >> \o Filler(sub - 5)
Big(k) ==
  LET fdl == Pick(Key(k, 1), << 65535, 65524, 65523, 65522, 65525, 40000, 32768, 65530 >>)
      h == [PkHeader(Key(k, 2), 1, 0) EXCEPT !.PID = Pid(1, 1)] IN
  << Open(1), Send(1, WritePacket(h, BigBody(77, fdl))), Send(1, Make("small", Key(k, 3), 1, 2)), Reply(1, 2, 0) >>

IsoOthers(k, c, m) == << Open(c) >> \o Flat([j \in 1..m |->
  << Send(c, Make(IF j = 2 THEN "quiet" ELSE "small", Key(k, j), c, j)), Reply(c, j, 1) >>])
Iso(k, stores) ==
  LET w == Rnd(Key(k, 1), 8) a == Make("tele", Key(k, 2), 1, 1) half == 1 + Rnd(Key(k, 3), Len(a) - 1) IN
  CASE w = 0 -> << Open(1), SendTag(1, 1, a, Num(1, 1), 1, << >>), Saves(1, 5) >> \o IsoOthers(Key(k, 4), 2, 3)
                \o Flat([s \in 1..stores |-> << Saves(1, 0), Release(1) >>]) \o << Reply(1, 1, 0) >>
    [] w = 1 -> << Open(1), Send(1, SubSeq(a, 1, half)) >> \o IsoOthers(Key(k, 4), 2, 3) \o << Send(1, SubSeq(a, half + 1, Len(a))), Reply(1, 1, 0) >>
    [] w = 2 -> << Open(1), Send(1, a), Step("abort", 1) >> \o IsoOthers(Key(k, 4), 2, 2) \o << Open(3), Send(3, SubSeq(Make("tele", Key(k, 5), 3, 1), 1, 9)), Step("abort", 3) >> \o IsoOthers(Key(k, 6), 4, 2)
    [] w = 3 -> << Open(1), Send(1, << 7 >> \o RBytes(Key(k, 5), 20)) >> \o IsoOthers(Key(k, 4), 2, 2) \o << Closed(1) >> \o IsoOthers(Key(k, 6), 3, 2)
    [] w = 4 -> << Open(2), Open(3) >> \o Merge2(Session(Key(k, 4), 2, Choose(Key(k, 7), 7, Kinds), FALSE), Session(Key(k, 5), 3, Choose(Key(k, 8), 7, Kinds), FALSE))
    (* the same vehicle, the same content, even the same packet from elsewhere while one of them is being stored *)
    [] w = 6 -> LET p2 == IF Rnd(Key(k, 9), 2) = 0 THEN Pid(1, 1) ELSE Pid(2, 1) IN
                << Open(1), Open(2), SendTag(1, 1, a, Num(1, 1), 1, << >>), Saves(1, 5), Send(2, MakeAs("tele", Key(k, 2), p2, Num(2, 1))), Reply(2, 1, 1) >>
                \o IsoOthers(Key(k, 4), 3, 2) \o Flat([s \in 1..stores |-> << Saves(1, 0), Release(1) >>]) \o << Reply(1, 1, 0) >>
    (* several connections have their storage calls held at once and are let go in another order *)
    [] w = 7 -> << Open(1), Open(2), Open(3), SendTag(1, 1, a, Num(1, 1), 1, << >>), Saves(1, 0),
                   SendTag(2, 2, Make("small", Key(k, 5), 2, 1), Num(2, 1), 1, IF Rnd(Key(k, 6), 2) = 0 THEN << 1 >> ELSE << >>), Saves(2, 0),
                   SendTag(3, 3, Make("tele", Key(k, 7), 3, 1), Num(3, 1), 1, << >>), Saves(3, 0) >>
                \o IsoOthers(Key(k, 4), 4, 2)
                \o Flat([x \in 1..3 |-> LET p == IF Rnd(Key(k, 8), 2) = 0 THEN 4 - x ELSE << 2, 3, 1 >>[x] IN
                         Flat([s \in 1..stores |-> << Saves(p, 0), Release(p) >>]) \o << Reply(p, 1, 1) >>])
    [] w = 5 -> << Open(1), SendTag(1, 1, a, Num(1, 1), 1, << 1 >>), Saves(1, 5), Step("abort", 1) >> \o IsoOthers(Key(k, 4), 2, 3)
Flood(k) ==
  << Open(1), Step("pause", 1), [a |-> "flood", c |-> 1, n |-> 200, b |-> Flat([j \in 1..1500 |-> Damage(Key(k, 1), Small(Key(k, 2), 9, 9), "hcs")])] >>
  \o IsoOthers(Key(k, 4), 2, 3)
(* a client that sends a large packet again and again, reads the answers only much later, and then gets all of them *)
Stall(k) ==
  LET w == Rnd(Key(k, 1), 3) IN
  << Open(1), [a |-> "stall", c |-> 1, n |-> << 150, 150, 40 >>[w + 1], p |-> 900, ms |-> << 3600, 5600, 1000 >>[w + 1], b |-> Hollow(Key(k, 2), 900, 9000)],
     Open(2), Send(2, Make("tele", Key(k, 3), 2, 1)), Reply(2, 1, 0) >>
Crowd(k) ==
  LET cs == 12 IN
  [c \in 1..cs |-> Open(c)]
  \o Flat([j \in 1..3 |-> [c \in 1..cs |-> Send(c, Make(Pick(Key(k, 100 * c + j), << "small", "ident", "quiet", "small", "conf", "tele" >>), Key(k, 200 * c + j), c, j))]])

Retrans(k) ==
  LET a == Make("tele", Key(k, 1), 1, 1) b == Make("ident", Key(k, 2), 1, 2) IN
  << Open(1), Send(1, a), Send(1, b), Send(1, a), Send(1, b \o a \o a), Send(1, Damage(Key(k, 3), a, "crc")), Send(1, a) >>
(* packets sent again as they are, and other packets under the same identifier *)
Encore(k) ==
  LET m == 3 + Rnd(Key(k, 1), 2) IN
  << Open(1) >> \o Flat([j \in 1..m |->
     LET kk == Key(k, 10 + j)
         kind == Pick(Key(kk, 1), << "bad", "bad", "tele", "small", "ident", "conf", "quiet", "mixed" >>)
         a == Make(kind, Key(kk, 2), 1, 2 * j)
         other == MakeAs(Pick(Key(kk, 3), << kind, kind, "tele", "small", "bad" >>), Key(kk, 4), Pid(1, 2 * j), Num(1, 2 * j + 1))
         renamed == MakeAs(kind, Key(kk, 2), Pid(1, 2 * j + 1), Num(1, 2 * j))
         w == Rnd(Key(kk, 5), 5) IN
     IF w = 4 THEN << Send(1, a), Send(1, renamed) >> ELSE
     IF w = 0 THEN << Send(1, a), Send(1, a) >> ELSE IF w = 1 THEN << Send(1, a \o a \o a) >>
     ELSE IF w = 2 THEN << Send(1, a), Send(1, other) >> ELSE << Send(1, a \o other \o a) >>])
(* a storage call that takes long, with more behind it on the same and on another connection *)
Slow(k, stores, ms) ==
  LET fails == IF Rnd(Key(k, 1), 2) = 0 THEN << 1 + Rnd(Key(k, 2), stores) >> ELSE << >>
      at == 1 + Rnd(Key(k, 3), stores)
      next == Pick(Key(k, 4), << "small", "tele", "quiet", "ident", "bad" >>)
      more == IF Rnd(Key(k, 5), 2) = 0 THEN << Send(1, Make(next, Key(k, 6), 1, 2)) >> ELSE << >>
      late == IF more = << >> THEN << Send(1, Make(next, Key(k, 6), 1, 2)) >> ELSE << >>
      works == [s \in 1..stores |-> << Saves(1, IF s = at THEN ms ELSE 0), Release(1) >>] IN
  << Open(1), Open(2), SendTag(1, 1, Make(Pick(Key(k, 7), << "tele", "small", "mixpos" >>), Key(k, 8), 1, 1), Num(1, 1), 1, fails) >>
  \o more \o << Saves(1, 0), Send(2, Make("small", Key(k, 9), 2, 1)), Reply(2, 1, 1) >>
  \o Flat(works) \o << Reply(1, 1, 0) >> \o late \o << Send(1, Make("small", Key(k, 10), 1, 3)), Send(2, Make("small", Key(k, 11), 2, 2)) >>
Drip(k, ms) ==
  LET kind == Pick(Key(k, 1), << "tele", "small", "ident", "mixed", "quiet" >>)
      b(c) == MakeAs(kind, Key(k, 2), Pid(1, 1), Num(c, 1))
      len == Len(b(2)) x == 1 + Rnd(Key(k, 3), 9) y == 11 + Rnd(Key(k, 4), len - 11) IN
  << Open(1), Send(1, b(1)), Reply(1, 1, 0), Open(2), Send(2, SubSeq(b(2), 1, x)), Wait(ms), Send(2, SubSeq(b(2), x + 1, y)), Wait(ms),
     Send(2, SubSeq(b(2), y + 1, len)), Reply(2, 1, 0), Send(2, Make("small", Key(k, 5), 2, 2)) >>
Storm(k) ==
  LET kind == Pick(Key(k, 1), << "bad", "harm", "harm", "conf", "resp", "quiet", "ident" >>) m == 40 + Rnd(Key(k, 2), 100)
      how == Pick(Key(k, 3), Hows)
      b(j) == IF kind = "bad" /\ Rnd(Key(k, 4), 2) = 0 THEN Damage(Key(k, 100 + j), Tele(Key(k, 300 + j), Pid(1, j), Num(1, j)), how) ELSE Make(kind, Key(k, 500 + j), 1, j)
      whole == Rnd(Key(k, 5), 2) IN
  << Open(1), Send(1, Make("small", Key(k, 6), 1, 300)) >>
  \o (IF whole = 0 THEN << Send(1, Flat([j \in 1..m |-> b(j)])) >> ELSE [j \in 1..m |-> Send(1, b(j))])
  \o << Send(1, Make("tele", Key(k, 7), 1, 301)), Send(1, Make("ident", Key(k, 8), 1, 302)), Send(1, Make("small", Key(k, 9), 1, 303)) >>
Long(k) ==
  << Open(1) >> \o [j \in 1..14 |-> Send(1, Flat([x \in 1..20 |->
     Make(Pick(Key(k, 20 * j + x), << "small", "small", "small", "quiet", "conf", "harm", "ident" >>), Key(k, 1000 + 20 * j + x), 1, 20 * j + x)]))]
  \o << Send(1, Make("tele", Key(k, 1), 1, 400)) >>
(* every value of one byte, one packet each, with telemetry in between: the result of a response, the status of a
   confirmation, service types, the flags of records, packets, positions and liquid sensors, sensor numbers *)
CodeKinds == << "pr", "status", "sst", "rst", "rflags", "pflags", "pos", "src", "liquid", "number" >>
CodePacket(w, k, x, j) ==
  LET pid == Pid(1, j) rec == Rec(Key(k, 1), 500 + j, RBytes(Key(k, 2), 4), 1, << PosSub2(Key(k, 3)) >>)
      tele(r) == WritePacket(Hdr(Key(k, 4), 1, pid, FALSE), WriteRecords(SetFirst(<< r >>, Num(1, j))))
      more(s) == tele([rec EXCEPT !.subs = Append(@, s)]) IN
  CASE w = "pr" -> WritePacket(Hdr(Key(k, 4), 0, pid, FALSE),
                     BodyOf(0, R16(Key(k, 5)), x, IF Rnd(Key(k, 6), 2) = 0 THEN << >> ELSE << [rec EXCEPT !.subs = << Confirm(Key(k, 7)) >>] >>))
    [] w = "status" -> App(k, pid, << [rec EXCEPT !.subs = << [Confirm(Key(k, 7)) EXCEPT !.v.RST = x] >>] >>)
    [] w = "sst" -> tele([rec EXCEPT !.h.SST = x]) [] w = "rst" -> tele([rec EXCEPT !.h.RST = x])
    [] w = "rflags" -> tele([rec EXCEPT !.h = [RecHeader(Key(k, 1), x) EXCEPT !.RN = 500 + j]])
    [] w = "pflags" -> LET h == PkHeader(Key(k, 8), 1, x) IN WritePacket([h EXCEPT !.PID = pid], WriteRecords(SetFirst(<< rec >>, Num(1, j))))
    [] w = "pos" -> tele([rec EXCEPT !.subs = << [t |-> 16, v |-> Read(PosDataL, GenBytes(PosDataL, Key(k, 9), << 1, x >>), 1).v] >>])
    [] w = "src" -> tele([rec EXCEPT !.subs[1].v.SRC = x, !.subs[1].v.DIN = 255 - x])
    [] w = "liquid" -> LET v == Read(LiquidL, GenBytes(LiquidL, Key(k, 10), << 1, x >>), 1).v IN
                       more([t |-> 27, v |-> [v EXCEPT !.RDF = 0, !.LLSVU = @ % 3, !.LLSD = RBytes(Key(k, 11), 4)]])
    [] w = "number" -> more([t |-> 24, v |-> [SubVal(24, Key(k, 12)) EXCEPT !.SensorNumber = x]])
Codes(k, w) ==
  << Open(1) >> \o Flat([j \in 1..256 |->
    LET b == CodePacket(w, Key(k, j), (j + Rnd(k, 256)) % 256, j) IN
    << Send(1, b) >> \o (IF j % 32 = 0 THEN << Send(1, Make("small", Key(k, 900 + j), 1, 256 + (j \div 32))) >> ELSE << >>)])
Huge(k) ==
  LET w == Rnd(Key(k, 1), 5) IN
  << Open(1),
     Send(1, IF w < 3 THEN Track(Key(k, 2), Pid(1, 1), Num(1, 1), << 260, 700, 2000 >>[w + 1])
             ELSE Crowded(Key(k, 2), Pid(1, 1), Num(1, 1), IF w = 3 THEN 280 + Rnd(Key(k, 3), 800) ELSE 9000)),
     Send(1, Make("tele", Key(k, 4), 1, 2)), Reply(1, 2, 0) >>
(* several connections with the same packets but for the time of the first position *)
Same(k) ==
  LET cs == 2 + Rnd(Key(k, 1), 4) m == 3 + Rnd(Key(k, 2), 3)
      b(c, j) == MakeAs(Pick(Key(k, 10 + j), << "tele", "small", "ident", "mixed", "quiet", "conf", "bad" >>), Key(k, 30 + j), Pid(1, j), Num(c, j))
      par == Rnd(Key(k, 3), 2) IN
  [c \in 1..cs |-> Open(c)]
  \o Flat([j \in 1..m |-> [c \in 1..cs |-> IF par = 1 THEN SendPar(c, b(c, j)) ELSE Send(c, b(c, j))]]) \o << Fire >>
(* connections whose packets, full of readings, arrive at the same time *)
Race(k) ==
  [c \in 1..10 |-> Open(c)]
  \o Flat([c \in 1..10 |-> [j \in 1..6 |-> SendPar(c, LET kk == Key(k, 100 * c + j) IN
            IF Rnd(Key(kk, 1), 6) = 0 THEN Make("ident", kk, c, j) ELSE Dense(kk, Pid(c, j), Num(c, j)))]])
  \o << Fire >>
Swarm(k) ==
  [c \in 1..30 |-> Open(c)]
  \o Flat([c \in 1..30 |-> [j \in 1..8 |-> SendPar(c, Make(Pick(Key(k, 100 * c + j), << "small", "ident", "quiet", "small", "conf", "tele", "harm" >>), Key(k, 5000 + 100 * c + j), c, j))]])
  \o << Fire >>
(* identifiers at the end of their range *)
Edge(k) ==
  << Open(1) >> \o [j \in 1..4 |-> Send(1, Tele(Key(k, j), << 65535, 0, 65534, 1 >>[j], Num(1, j)))]
Ends(k) ==
  << Open(1), [a |-> "baseline"] >>
  \o Flat([x \in 1..12 |->
       LET c == x + 1 kk == Key(k, c) b == Make("small", Key(kk, 1), c, 1) w == c % 6 IN
       << Open(c) >> \o
       CASE w = 0 -> << Step("eof", c) >>
         [] w = 1 -> << Send(c, b), Step("eof", c) >>
         [] w = 2 -> << Send(c, SubSeq(b, 1, 1 + Rnd(kk, Len(b) - 1))), Step("eof", c) >>
         [] w = 3 -> << Send(c, b), Reply(c, 1, 0), Step("abort", c) >>
         [] w = 4 -> << Send(c, << 9 >> \o b) >>
         [] w = 5 -> << Send(c, b), Send(c, SubSeq(b, 1, 5)), Step("abort", c) >>])
  \o << [a |-> "goroutines"] >>

Build(class, k) ==
  LET st == IF Rnd(Key(k, 904), 6) = 0 THEN 5 ELSE 1 + Rnd(Key(k, 901), 3) kk == Key(k, 902) IN
  CASE class = "volume" -> Scen("volume", st, 1, Volume(kk, Kinds, 8))
    [] class = "plain" -> Scen("volume", st, 1, Volume(kk, << "tele", "tele", "many", "small", "quiet" >>, 6))
    [] class = "retrans" -> Scen("volume", st, 1, Retrans(kk))
    [] class = "encore" -> Scen("volume", st, 1, Encore(kk))
    [] class = "slow1" -> Scen("slow", st, 2, Slow(kk, st, 700 + 100 * Rnd(Key(k, 903), 8)))
    [] class = "slow3" -> Scen("slow", st, 2, Slow(kk, st, 2400 + 100 * Rnd(Key(k, 903), 10)))
    [] class = "slow6" -> Scen("slow", st, 2, Slow(kk, st, 5200 + 100 * Rnd(Key(k, 903), 8)))
    [] class = "slow11" -> Scen("slow", st, 2, Slow(kk, st, 10200 + 100 * Rnd(Key(k, 903), 8)))
    [] class = "slow34" -> Scen("slow", st, 2, Slow(kk, st, 33000))
    [] class = "drip03" -> Scen("drip", st, 2, Drip(kk, 300))
    [] class = "drip1" -> Scen("drip", st, 2, Drip(kk, 1300))
    [] class = "drip3" -> Scen("drip", st, 2, Drip(kk, 3400))
    [] class = "drip6" -> Scen("drip", st, 2, Drip(kk, 6300))
    [] class = "drip11" -> Scen("drip", st, 2, Drip(kk, 11000))
    [] class = "storm" -> Scen("volume", st, 1, Storm(kk))
    [] class = "long" -> Scen("volume", 1 + Rnd(Key(k, 903), 2), 1, Long(kk))
    [] class = "codes" -> Scen("volume", 1, 1, Codes(kk, Pick(Key(k, 903), CodeKinds)))
    [] class = "codepr" -> Scen("volume", 1, 1, Codes(kk, "pr"))
    [] class = "codestatus" -> Scen("volume", 1, 1, Codes(kk, "status"))
    [] class = "codesst" -> Scen("volume", 1, 1, Codes(kk, "sst"))
    [] class = "coderst" -> Scen("volume", 1, 1, Codes(kk, "rst"))
    [] class = "coderflags" -> Scen("volume", 1, 1, Codes(kk, "rflags"))
    [] class = "codepflags" -> Scen("volume", 1, 1, Codes(kk, "pflags"))
    [] class = "codepos" -> Scen("volume", 1, 1, Codes(kk, "pos"))
    [] class = "codesrc" -> Scen("volume", 1, 1, Codes(kk, "src"))
    [] class = "codeliquid" -> Scen("volume", 1, 1, Codes(kk, "liquid"))
    [] class = "codenumber" -> Scen("volume", 1, 1, Codes(kk, "number"))
    [] class = "huge" -> Scen("volume", 1, 1, Huge(kk))
    [] class = "same" -> Scen("iso", st, 5, Same(kk))
    [] class = "swarm" -> Scen("iso", 1 + Rnd(Key(k, 903), 2), 30, Swarm(kk))
    [] class = "race" -> Scen("iso", 1, 10, Race(kk))
    [] class = "edge" -> Scen("volume", st, 1, Edge(kk))
    [] class = "fault" -> Scen("fault", st, 1, Fault(kk, st))
    [] class = "hold" -> Scen("hold", st, 1, Hold(kk, st))
    [] class = "damage" -> Scen("volume", st, 1, Volume(kk, << "bad", "bad", "tele", "bad", "small", "ident" >>, 8))
    [] class = "confirm" -> Scen("volume", st, 1, Volume(kk, << "conf", "resp", "mixed", "tele", "small", "mixed" >>, 8))
    [] class = "ident" -> Scen("volume", st, 1, Volume(kk, << "ident", "ident", "small", "quiet", "bad", "conf" >>, 8))
    [] class = "twin" -> Scen("twin", st, 2, Twin(kk))
    [] class = "pace" -> Scen("twin", st, 3, Pace(kk))
    [] class = "seg" -> Scen("seg", st, 13, Seg(kk, st))
    [] class = "cuttail" -> Scen("cuttail", st, 2, CutTail(kk))
    [] class = "alien" -> Scen("alien", st, 1, Alien(kk))
    [] class = "fuzz" -> Scen("fuzz", st, 9, Fuzz(kk))
    [] class = "mutants" -> Scen("fuzz", st, 2, Mutants(kk))
    [] class = "big" -> Scen("volume", 1, 1, Big(kk))
    [] class = "iso" -> Scen("iso", st, 4, Iso(kk, st))
    [] class = "flood" -> Scen("iso", 1, 2, Flood(kk))
    [] class = "stall" -> [Scen("volume", 1, 2, Stall(kk)) EXCEPT !.ttl = IF Rnd(Key(kk, 9), 2) = 0 THEN 1500 ELSE @]
    [] class = "crowd" -> Scen("iso", st, 12, Crowd(kk))
    [] class = "oids" -> Scen("volume", st, 1, << Open(1), Send(1, Make("multi", kk, 1, 1)), Send(1, Make("tele", Key(kk, 2), 1, 2)) >>)
    [] class = "ends" -> Scen("ends", st, 13, Ends(kk))

Init == n \in 1..Len(Plan) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ n' = n
        /\ ndJsonSerialize(OutDir \o "/" \o ToString(n), << [sc |-> First + n] @@ Build(Plan[n], Key(Key(Seed, 8123), n)) >>)
Spec == Init /\ [][Next]_<< n, done >>
=============================================================================
