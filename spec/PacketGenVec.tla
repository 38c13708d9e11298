---------------------------- MODULE PacketGenVec ----------------------------
(***************************************************************************)
(* Runs for the real packet-gen: arguments, what they ask for, and what    *)
(* the server answers.  Every abstract answer of the model PacketGen is    *)
(* among them, as bytes.                                                   *)
(***************************************************************************)
EXTENDS GatePk, Json
CONSTANTS Seed, VecFile, NRand
PG == INSTANCE PacketGen WITH Limit <- 2, Bug <- "none", phase <- 0, clock <- 0, valid <- 0, sent <- 0, ans <- 0, parts <- 0, code <- 0

(* arguments: literal text, or a number the driver writes out *)
Str(n, s) == [n |-> n, k |-> "str", s |-> s]
U32(n, b) == [n |-> n, k |-> "u32", b |-> b]
Deg(n, b, neg, full) == [n |-> n, k |-> "deg", b |-> b, neg |-> neg, full |-> full]
Time(b, tz) == [n |-> "time", k |-> "time", b |-> b, tz |-> tz]
Rep(x, n) == [i \in 1..n |-> x]
None4 == Zero4
Ask(pid, oid, t, tz, lat, lats, lon, lons, liq) ==
  [args |-> << Str("pid", ToString(pid)), U32("oid", oid), Time(t, tz), Deg("lat", lat, lats, 90), Deg("lon", lon, lons, 180), U32("liquid", liq) >>,
   want |-> [send |-> 1, pid |-> pid, oid |-> oid, t |-> t, lat |-> lat, lats |-> lats, lon |-> lon, lons |-> lons, liq |-> liq]]
NoWant == [send |-> 0, pid |-> 0, oid |-> Zero4, t |-> Zero4, lat |-> Zero4, lats |-> 0, lon |-> Zero4, lons |-> 0, liq |-> Zero4]
Pid(k) == 1 + Rnd(k, 65535)
NZ(b) == IF b = Zero4 THEN << 1, 0, 0, 0 >> ELSE b
Four(k) == IF Rnd(Key(k, 1), 4) # 0 THEN RBytes(Key(k, 2), 4)
           ELSE Pick(Key(k, 3), << Zero4, << 255, 255, 255, 255 >>, << 1, 0, 0, 0 >>, << 255, 255, 0, 0 >>, << 0, 0, 1, 0 >>, << 0, 0, 0, 128 >>, << 255, 255, 255, 127 >>, << 0, 1, 0, 0 >> >>)
(* a time whose year stays below 10000 whatever its bytes *)
RandomAsk(k) ==
  LET a == Ask(IF Rnd(Key(k, 1), 5) = 0 THEN Pick(Key(k, 14), << 65535, 1, 255, 256, 32768 >>) ELSE Pid(Key(k, 2)), NZ(Four(Key(k, 3))), Four(Key(k, 4)),
               Pick(Key(k, 5), << 0, 0, 180, -210, 720, -720 >>),
               Four(Key(k, 6)), Rnd(Key(k, 7), 2), Four(Key(k, 8)), Rnd(Key(k, 9), 2), Four(Key(k, 10)))
  IN IF Rnd(Key(k, 11), 4) = 0 \* whole degrees: 6i of 90 and 12j of 180 are exact on the wire
     THEN LET i == Rnd(Key(k, 12), 16) j == Rnd(Key(k, 13), 16) IN
          [a EXCEPT !.args[4] = Str("lat", (IF a.want.lats = 1 /\ i > 0 THEN "-" ELSE "") \o ToString(6 * i)),
                    !.args[5] = Str("lon", (IF a.want.lons = 1 /\ j > 0 THEN "-" ELSE "") \o ToString(12 * j)),
                    !.want.lat = Rep(17 * i, 4), !.want.lon = Rep(17 * j, 4)]
     ELSE IF Rnd(Key(k, 11), 8) = 1 \* optional ones left out
     THEN [a EXCEPT !.args = SubSeq(a.args, 1, 3), !.want.lat = Zero4, !.want.lon = Zero4, !.want.liq = Zero4]
     ELSE a

(* answers *)
Conf(n, st) == [t |-> 0, v |-> [CRN |-> n, RST |-> st]]
Frm(k, pid, rpid, pr, recs) ==
  WritePacket(Hdr(k, 0, pid, Rnd(Key(k, 5), 4) = 0), LE16(rpid) \o << pr >> \o WriteRecords(recs))
OneRec(k, subs) == << Rec(Key(k, 6), 3, Zero4, 0, subs) >>
Response(k, rpid, pr, confs) ==
  Frm(k, R16(Key(k, 4)), rpid, pr, IF confs = << >> THEN << >> ELSE OneRec(k, [i \in 1..Len(confs) |-> Conf(confs[i][1], confs[i][2])]))
(* abstract identifiers 1 and 2 are the packet's own and another *)
Real(a, k, pid) ==
  LET other == (pid % 65535) + 1 IN
  CASE a.k = "resp" -> Response(k, IF a.rpid = 1 THEN pid ELSE other, IF a.pr = 0 THEN 0 ELSE 1 + Rnd(Key(k, 20), 255),
                                [i \in 1..Len(a.confs) |-> << a.confs[i][1], IF a.confs[i][2] = 0 THEN 0 ELSE 1 + Rnd(Key(k, 21), 255) >>])
    [] a.k = "result" -> App(k, pid, << Rec(Key(k, 6), 1, Zero4, 0, << [t |-> 9, v |-> [RCD |-> 0]] >>) >>)
    [] a.k = "junk" -> << 7 >> \o RBytes(k, 30)
Piece(ms, b) == [ms |-> ms, b |-> b]
Pieces(k, b, m) == \* m cuts
  IF m = 0 \/ Len(b) < 2 THEN << Piece(0, b) >>
  ELSE LET c == 1 + Rnd(Key(k, m), Len(b) - 1) IN << Piece(0, SubSeq(b, 1, c)), Piece(40, SubSeq(b, c + 1, Len(b))) >>
ByteWise(b) == [i \in 1..Len(b) |-> Piece(IF i % 7 = 0 THEN 5 ELSE 1, << b[i] >>)]
Vec(g, a, limit, arg, reply, end, dest) ==
  [g |-> g, args |-> a.args \o arg, want |-> a.want, limit |-> limit, reply |-> reply, end |-> end, dest |-> dest]
Tout(n) == << Str("timeout", ToString(n)) >>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o ToSeq(S \ {x})
Abstract ==
  LET as == ToSeq(PG!Answers2) IN
  [i \in 1..Len(as) |-> LET k == Key(Key(Seed, 11), i) a == RandomAsk(k) IN
     Vec("model", a, 4000, Tout(4), Pieces(Key(k, 30), Real(as[i], Key(k, 31), a.want.pid), i % 2), IF i % 3 = 0 THEN "close" ELSE "keep", "server")]
GoodAns(k, a) == Response(k, a.want.pid, 0, << << 1, 0 >> >>)
Big(k, a, bad) == \* hundreds of confirmations; one of them may be negative
  LET n == 300 + Rnd(Key(k, 40), 500) at == 1 + Rnd(Key(k, 41), n) w == 1 + Rnd(Key(k, 42), n) IN
  Response(k, a.want.pid, 0, [i \in 1..n |-> IF i = w THEN << 1, 0 >> ELSE << 1000 + i, IF bad /\ i = at THEN 1 ELSE 0 >>])
Randoms ==
  [i \in 1..NRand |-> LET k == Key(Key(Seed, 12), i) a == RandomAsk(k) g == GoodAns(Key(k, 31), a) w == Rnd(Key(k, 50), 17)
                           p == a.want.pid bit == 2 ^ Rnd(Key(k, 61), 16) near == IF (p \div bit) % 2 = 1 THEN p - bit ELSE p + bit IN
     CASE w = 14 -> Vec("near-pid", a, 4000, Tout(4), << Piece(0, Response(Key(k, 62), near, 0, << << 1, 0 >> >>)) >>, "close", "server")
       [] w = 15 -> Vec("near-rn", a, 4000, Tout(4), << Piece(0, Response(Key(k, 62), p, 0, << << Pick(Key(k, 63), << 0, 2, 3, 257, 256, 32769, 65281, 65535, p >>), 0 >> >>)) >>, "close", "server")
       [] w = 16 -> Vec("near-ok", a, 4000, Tout(4), << Piece(0, Response(Key(k, 62), p, Pick(Key(k, 64), << 0, 0, 1, 128, 153, 255 >>), << << 1, Pick(Key(k, 65), << 0, 1, 2, 128, 255 >>) >> >>)) >>, "close", "server")
       [] w \in {0, 1, 2, 3} -> Vec("good", a, 4000, Tout(4), Pieces(k, g, w), "keep", "server")
       [] w = 4 -> Vec("bytewise", a, 4000, Tout(4), ByteWise(g), "keep", "server")
       [] w = 5 -> Vec("damaged", a, 4000, Tout(4), << Piece(0, Damage(Key(k, 51), g, Pick(Key(k, 52), << "hcs", "crc", "data", "head", "type", "nobody" >>))) >>, "close", "server")
       [] w = 6 -> Vec("cut", a, 4000, Tout(4), << Piece(0, SubSeq(g, 1, 1 + Rnd(Key(k, 53), Len(g) - 1))) >>, "close", "server")
       [] w = 7 -> Vec("closed", a, 4000, Tout(4), << >>, "close", "server")
       [] w = 8 -> Vec("reset", a, 4000, Tout(4), << >>, "reset", "server")
       [] w = 9 -> Vec("trailing", a, 4000, Tout(4), << Piece(0, g \o RBytes(Key(k, 54), 20)) >>, "keep", "server")
       [] w = 10 -> Vec("big", a, 4000, Tout(4), Pieces(k, Big(k, a, FALSE), Rnd(Key(k, 55), 2)), "keep", "server")
       [] w = 11 -> Vec("bigbad", a, 4000, Tout(4), Pieces(k, Big(k, a, TRUE), Rnd(Key(k, 55), 2)), "keep", "server")
       [] w = 12 -> Vec("tworecs", a, 4000, Tout(4), << Piece(0, Frm(Key(k, 56), 9, a.want.pid, 0,
                          OneRec(Key(k, 57), << Conf(9, 0) >>) \o OneRec(Key(k, 58), << Conf(1, IF Rnd(Key(k, 59), 2) = 0 THEN 0 ELSE 153) >>))) >>, "keep", "server")
       [] w = 13 -> Vec("junk", a, 4000, Tout(4), << Piece(0, << 1 >> \o RBytes(Key(k, 60), 40)) >>, "close", "server")]
A0(i) == RandomAsk(Key(Key(Seed, 13), i))
Lacking == \* one argument missing or impossible
  LET a == A0(1)
      drop(n) == [args |-> SelectSeq(a.args, LAMBDA x : x.n # n), want |-> NoWant]
      put(n, s) == [args |-> SelectSeq(a.args, LAMBDA x : x.n # n) \o << Str(n, s) >>, want |-> NoWant]
      bads == << drop("pid"), drop("oid"), drop("time"), put("pid", "0"), put("pid", "65536"), put("pid", "-1"), put("pid", "131073"), put("pid", "x"),
                 put("oid", "0"), put("oid", "4294967296"), put("oid", "-7"), put("oid", "4294967297"), put("time", "2021-13-01T00:00:00Z"), put("time", "yesterday"), put("time", ""),
                 put("time", "2009-12-31T23:59:59Z"), put("time", "1999-06-01T00:00:00Z"), put("time", "2150-01-01T00:00:00Z"),
                 put("lat", "90.0001"), put("lat", "-91"), put("lat", "1e300"), put("lat", "NaN"), put("lon", "180.1"), put("lon", "-500"), put("lon", "Inf"), put("liquid", "-1"), put("liquid", "4294967296"), put("nonsense", "1") >>
  IN [i \in 1..Len(bads) |-> Vec("lacking", bads[i], 2000, Tout(2), << Piece(0, Response(Key(Seed, i), 1, 0, << << 1, 0 >> >>)) >>, "keep", "server")]
Timed ==
  LET late(i, ms) == LET a == A0(20 + i) IN << Piece(ms, GoodAns(Key(Seed, 70 + i), a)) >>
      half(i, ms) == LET g == GoodAns(Key(Seed, 80 + i), A0(20 + i)) n == Len(g) \div 2 IN << Piece(0, SubSeq(g, 1, n)), Piece(ms, SubSeq(g, n + 1, Len(g))) >>
  IN << Vec("default-late", A0(21), 5000, << >>, late(1, 3300), "keep", "server"),
        Vec("default-never", A0(22), 5000, << >>, << >>, "keep", "server"),
        Vec("never", A0(23), 1000, Tout(1), << >>, "keep", "server"),
        Vec("never2", A0(24), 2000, Tout(2), << >>, "keep", "server"),
        Vec("in-time", A0(25), 5000, Tout(5), late(5, 3000), "keep", "server"),
        Vec("too-late", A0(26), 1000, Tout(1), late(6, 2700), "keep", "server"),
        Vec("half-in-time", A0(27), 5000, Tout(5), half(7, 2500), "keep", "server"),
        Vec("half-too-late", A0(28), 1000, Tout(1), half(8, 3000), "keep", "server"),
        Vec("refused", A0(29), 2000, Tout(2), << >>, "keep", "nobody") >>
All == LET s == Timed \o Lacking \o Abstract \o Randoms IN [i \in 1..Len(s) |-> [id |-> i] @@ s[i]]
ASSUME ndJsonSerialize(VecFile, All)
=============================================================================
