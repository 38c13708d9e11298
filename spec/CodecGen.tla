------------------------------ MODULE CodecGen ------------------------------
(***************************************************************************)
(* Generation of codec vectors.  Evaluated once by TLC; writes VecFile.    *)
(***************************************************************************)
EXTENDS EgtsGen, Json
CONSTANTS Seed, VecFile, CorpusFile, NRand, NPack, Groups

K0 == Key(Seed, 4711)
Dec(t, b) == [op |-> "dec", t |-> t, b |-> b]
DecP(b) == [op |-> "decp", b |-> b]

Flat(s) == FoldLeft(LAMBDA a, x : a \o x, << >>, s)
(* every value of every flag byte of every structure *)
VFlags == Flat([i \in 1..Len(FlagFields) |->
  [x \in 1..256 |-> Dec(FlagFields[i][1], SubBytes(FlagFields[i][1], Key(Key(K0, 100 + i), x), << FlagFields[i][2], x - 1 >>))]])
VRand == Flat([i \in 1..Len(SubList) |->
  [x \in 1..NRand |-> Dec(SubList[i], SubBytes(SubList[i], Key(Key(K0, 200 + i), x), NoForce))]])
VExtra == Flat([i \in 1..Len(SubList) |->
  [x \in 1..4 |-> Dec(SubList[i], SubBytes(SubList[i], Key(Key(K0, 300 + i), x), NoForce) \o RBytes(Key(K0, x), IF SubList[i] \in {0, 15, 20} THEN 0 ELSE x))]])
VEnc == Flat([i \in 1..Len(SubList) |->
  [x \in 1..NRand |-> LET t == SubList[i] IN
     [op |-> "enc", t |-> t, v |-> View(t, SubVal(t, Key(Key(K0, 400 + i), x)))]]])

(* result codes of the protocol, and any other byte *)
Code(k) == IF Rnd(Key(k, 1), 3) = 0 THEN RByte(Key(k, 2)) ELSE Pick(Key(k, 3), << 0, 0, 1, 128, 129, 131, 132, 133, 137, 138, 139, 146, 151, 153, 154, 155, 156 >>)
Pack(key, x) ==
  LET pt == IF Rnd(Key(key, 1), 4) = 0 THEN 0 ELSE 1
      many == x % 8 = 5
      m == IF many THEN 4 + Rnd(Key(key, 2), 6) ELSE IF pt = 0 THEN Rnd(Key(key, 2), 3) ELSE 1 + Rnd(Key(key, 2), 3)
      recs == GenRecords(Key(key, 3), m, IF many THEN 1 ELSE 3)
  IN [h |-> PkHeader(Key(key, 4), pt, x % 256), pt |-> pt, recs |-> recs,
      rpid |-> R16(Key(key, 5)), pr |-> Code(Key(key, 6))]
PackBytes(p) == WritePacket(p.h, BodyOf(p.pt, p.rpid, p.pr, p.recs))
VPack == [x \in 1..NPack |-> DecP(PackBytes(Pack(Key(Key(K0, 500), x), x)))]
VEncP == [x \in 1..NPack |->
  LET p == Pack(Key(Key(K0, 600), x), x) IN
  [op |-> "encp", h |-> p.h, auto |-> x % 3, rpid |-> p.rpid, pr |-> p.pr, recs |-> RecsForDriver(p.recs)]]
(* records: every flag byte *)
VRecFlags == [x \in 1..256 |->
  LET k == Key(Key(K0, 700), x) IN
  [op |-> "decr", b |-> WriteRecord([h |-> RecHeader(k, x - 1), subs |-> << GenSub(Key(k, 2)) >>])]]
VSubSets == [x \in 1..(NPack \div 4) |->
  LET k == Key(Key(K0, 750), x) IN
  [op |-> "decrd", b |-> WriteSubs([i \in 1..Rnd(k, 6) |-> GenSub(Key(k, i))])]]
VResp == [x \in 1..(NPack \div 4) |->
  LET k == Key(Key(K0, 800), x) IN
  [op |-> "decresp", b |-> BodyOf(0, R16(Key(k, 1)), Code(Key(k, 2)), GenRecords(Key(k, 3), Rnd(k, 3), 2))]]

(* bodies of particular sizes: m bytes of records in all, half of them one long text, the others many positions *)
BigRec(k, rn, m) ==
  LET d == SubSeq(<< 3, 1, 2, 3, 4 >> \o [i \in 1..m |-> (i * 7 + (i \div 256)) % 256], 1, m - 10) IN
  LE16(m - 7) \o LE16(rn) \o << 0, 2, 2 >> \o << 5 >> \o LE16(m - 10) \o d
Sizes == << 255, 256, 257, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 40000, 65522, 65523, 65535 >>
VBig == [x \in 1..Len(Sizes) |-> DecP(WritePacket(PkHeader(Key(K0, 850 + x), 1, 32 * (x % 2)), BigRec(Key(K0, 880 + x), 7, Sizes[x])))]
VBig2 == [x \in 1..4 |->
  LET k == Key(K0, 870 + x) m == << 40, 90, 300, 900 >>[x] IN
  DecP(WritePacket(PkHeader(k, x % 2, 0), BodyOf(x % 2, 5, 0,
    IF x < 3 THEN [i \in 1..m |-> GenRecord(Key(k, i), 1)]
    ELSE << [h |-> RecHeader(Key(k, 1), 1), subs |-> [i \in 1..m |-> [t |-> 16, v |-> SubVal(16, Key(k, i % 7))]]] >>)))]

Corpus == ndJsonDeserialize(CorpusFile)
VCorpus == [i \in 1..Len(Corpus) |-> DecP(Corpus[i].b)]

(* -- corruption: every single bit of some packets, bursts, swaps ---------- *)
Flip(b, bit) == [b EXCEPT ![1 + bit \div 8] = @ ^^ Pow2[bit % 8]]
Burst(b, bit, n, k) ==
  FoldLeft(LAMBDA a, j : IF bit + j >= 8 * Len(b) THEN a
                         ELSE IF j = 0 \/ j = n - 1 \/ Rnd(Key(k, j), 2) = 1 THEN Flip(a, bit + j) ELSE a,
           b, [j \in 1..n |-> j - 1])
NC == 2 + NPack \div 100
CBase(x) == IF x % 3 = 2 THEN Corpus[1 + Rnd(Key(K0, 900 + x), Len(Corpus))].b
            ELSE PackBytes(Pack(Key(Key(K0, 900), x), 32 * x + (IF x % 2 = 0 THEN 0 ELSE Rnd(Key(K0, 950 + x), 32))))
VFlip == Flat([x \in 1..NC |->
  LET b == CBase(x) n == 8 * Len(b) IN
  [j \in 1..(IF n > 1200 THEN 1200 ELSE n) |-> DecP(Flip(b, IF n > 1200 /\ j > 160 THEN Rnd(Key(K0, 1000 + j), n) ELSE j - 1))]])
VBurst == Flat([x \in 1..NC |->
  LET b == CBase(100 + x) n == 8 * Len(b) IN
  [j \in 1..150 |-> LET k == Key(Key(K0, 1100 + x), j) IN
     (* bursts that cannot exceed what the checksum at that place detects *)
     IF j % 3 = 0 THEN DecP(Burst(b, Rnd(k, 80), 2 + Rnd(Key(k, 2), 7), k))
     ELSE DecP(Burst(b, Rnd(k, n), 2 + Rnd(Key(k, 2), 15), k))]])
(* checksum off by a pattern *)
VSums == Flat([x \in 1..NC |->
  LET b == CBase(200 + x) n == Len(b) h == IF Bit(b[3], 5) = 1 THEN 16 ELSE 11 IN
  [j \in 1..40 |-> LET k == Key(Key(K0, 1200 + x), j) IN
     IF j <= 10 THEN DecP([b EXCEPT ![h] = (@ + 1 + Rnd(k, 255)) % 256])
     ELSE IF j <= 20 THEN DecP([b EXCEPT ![n] = (@ + 1 + Rnd(k, 255)) % 256])
     ELSE IF j <= 30 THEN DecP([b EXCEPT ![n-1] = (@ + 1 + Rnd(k, 255)) % 256])
     ELSE IF j = 31 THEN DecP([b EXCEPT ![n-1] = b[n], ![n] = b[n-1]])
     ELSE IF j = 32 THEN DecP([b EXCEPT ![n-1] = 0, ![n] = 0])
     ELSE IF j = 33 THEN DecP([b EXCEPT ![n-1] = 255, ![n] = 255])
     ELSE IF j = 34 THEN DecP([b EXCEPT ![h] = 0])
     ELSE DecP([b EXCEPT ![n-1] = (@ + 1 + Rnd(k, 255)) % 256, ![n] = (@ + 1 + Rnd(Key(k, 3), 255)) % 256])]])

(* a little damage in a packet with any flags: one bit, one byte, two bytes swapped, in each part of the packet *)
VFlagged == [x \in 1..512 |->
  LET k == Key(Key(K0, 1230), x) b == PackBytes(Pack(Key(k, 1), x - 1)) n == Len(b) h == IF Bit(b[3], 5) = 1 THEN 16 ELSE 11
      w == Rnd(Key(k, 2), 5) IN
  IF w = 0 \/ n = h THEN DecP([b EXCEPT ![h] = (@ + 1 + Rnd(Key(k, 3), 255)) % 256])
  ELSE IF w = 1 THEN DecP(Flip(b, 8 * h + Rnd(Key(k, 3), 8 * (n - h))))
  ELSE IF w = 2 THEN DecP([b EXCEPT ![n - Rnd(Key(k, 4), 2)] = (@ + 1 + Rnd(Key(k, 3), 255)) % 256])
  ELSE IF w = 3 THEN DecP(Flip(b, 8 * (n - 3) + Rnd(Key(k, 3), 8)))
  ELSE DecP(Flip(b, 8 * Pick(Key(k, 4), << 0, 1, 2, 4, 5, 6, 7, 8, 9, 10 >>) + Rnd(Key(k, 3), 8)))]
(* damage in long packets, near their beginning and end and around powers of two *)
VBigFlip == Flat([x \in 1..Len(Sizes) |->
  LET b == VBig[x].b n == Len(b) IN
  [j \in 1..3 |-> LET k == Key(Key(K0, 1240 + x), j)
                      at == IF j = 1 THEN n - 2 - Rnd(k, 3) ELSE IF j = 2 THEN n - Rnd(k, 2) ELSE 100 + Rnd(k, n - 100) IN
     DecP(Flip(b, 8 * (at - 1) + Rnd(Key(k, 2), 8)))]])

(* -- truncation and contradicting lengths --------------------------------- *)
VTrunc == Flat([i \in 1..Len(SubList) |->
  LET t == SubList[i]
      full == SubBytes(t, Key(K0, 1300 + i), << 1, 255 >>)
      more == SubBytes(t, Key(K0, 1350 + i), NoForce)
      all18 == SubBytes(18, Key(K0, 1399), << 3, 255 >>)
  IN [n \in 1..Len(full) |-> Dec(t, SubSeq(full, 1, n - 1))]
     \o [n \in 1..Len(more) |-> Dec(t, SubSeq(more, 1, n - 1))]])
VTrunc18 == Flat([i \in 1..8 |->
  LET b == SubBytes(18, Key(K0, 1400 + i), << 2, Pow2[i-1] >>) IN
  [n \in 1..Len(b) |-> Dec(18, SubSeq(b, 1, n - 1))]])
(* every value of every flag byte, with the last byte missing and with some number of bytes missing *)
VTruncF == Flat([i \in 1..Len(FlagFields) |->
  LET t == FlagFields[i][1] IN
  [j \in 1..512 |->
    LET x == (j - 1) \div 2  k == Key(Key(K0, 1410 + i), x)
        b == SubBytes(t, k, << FlagFields[i][2], x >>)  m == Len(b) IN
    Dec(t, SubSeq(b, 1, m - 1 - (IF j % 2 = 1 THEN 0 ELSE Rnd(k, IF m > 8 THEN 8 ELSE m))))]])
VTruncG == [j \in 1..1024 |->
  LET x == (j - 1) \div 4  w == j % 4  k == Key(Key(K0, 1420), j)
      r == WriteRecord([h |-> RecHeader(k, x), subs |-> << GenSub(Key(k, 2)) >>])
      p == PackBytes(Pack(Key(k, 3), x)) IN
  CASE w = 0 -> [op |-> "decr", b |-> SubSeq(r, 1, Rnd(Key(k, 4), Len(r)))]
    [] w = 1 -> [op |-> "decr", b |-> SubSeq(r, 1, Rnd(Key(k, 5), IF Len(r) > 22 THEN 22 ELSE Len(r)))]
    [] w = 2 -> DecP(SubSeq(p, 1, Rnd(Key(k, 6), Len(p))))
    [] w = 3 -> DecP(SubSeq(p, 1, Rnd(Key(k, 7), IF Len(p) > 17 THEN 17 ELSE Len(p))))]
VTruncP == Flat([x \in 1..NC |->
  LET b == PackBytes(Pack(Key(Key(K0, 1450), x), 32 * (x % 2))) IN
  [n \in 1..Len(b) |-> DecP(SubSeq(b, 1, n - 1))]])
VTruncR == Flat([x \in 1..NC |->
  LET b == WriteRecords(GenRecords(Key(Key(K0, 1500), x), 2, 2)) IN
  [n \in 1..Len(b) |-> [op |-> "decr", b |-> SubSeq(b, 1, n - 1)]]])
VTruncD == Flat([x \in 1..NC |->
  LET b == BodyOf(0, 1, 0, GenRecords(Key(Key(K0, 1550), x), 1, 2)) IN
  [n \in 1..Len(b) |-> [op |-> "decresp", b |-> SubSeq(b, 1, n - 1)]]])
VTruncS == Flat([x \in 1..NC |->
  LET b == WriteSubs([i \in 1..3 |-> GenSub(Key(Key(K0, 1600 + x), i))]) IN
  [n \in 1..Len(b) |-> [op |-> "decrd", b |-> SubSeq(b, 1, n - 1)]]])
(* header length byte: all values, header checksum recomputed for that length where possible *)
ReSum(b) ==
  LET n == b[4] IN
  IF n < 2 \/ n > Len(b) THEN [b EXCEPT ![11] = Crc8(SubSeq(b, 1, 10))]
  ELSE IF n <= 10 THEN [b EXCEPT ![11] = Crc8(SubSeq(b, 1, n - 1))]
  ELSE LET c == [b EXCEPT ![n] = Crc8(SubSeq(b, 1, n - 1))]
       IN IF n = 11 THEN c ELSE [c EXCEPT ![11] = Crc8(SubSeq(c, 1, 10))]
VHL == Flat([x \in 1..2 |->
  LET b == PackBytes(Pack(Key(Key(K0, 1650), x), 0)) IN
  [j \in 1..256 |-> DecP(ReSum([b EXCEPT ![4] = j - 1]))]])
(* the checksum byte is where the code looks for it but over HL-1 bytes *)
VHL2 == Flat([x \in 1..2 |->
  LET b == PackBytes(Pack(Key(Key(K0, 1660), x), 32 * (x - 1)))
      hs == IF x = 2 THEN 16 ELSE 11 IN
  [j \in 1..(Len(b) - 1) |->
     LET c == [b EXCEPT ![4] = j]
         s == Crc8(SubSeq(c, 1, j - 1)) IN DecP([c EXCEPT ![hs] = s])]])
VFDL == Flat([x \in 1..3 |->
  LET b == PackBytes(Pack(Key(Key(K0, 1700), x), 0))
      n == Len(b) - 13
      Put(m) == LET c == [b EXCEPT ![6] = m % 256, ![7] = m \div 256] IN [c EXCEPT ![11] = Crc8(SubSeq(c, 1, 10))]
  IN [j \in 1..(n + 12) |-> DecP(Put(j - 1))]
     \o << DecP(Put(65535)), DecP(Put(65525)), DecP(Put(65524)), DecP(Put(65526)), DecP(Put(65530)), DecP(Put(32768)) >>])
(* a record or subrecord length changed inside an otherwise consistent frame *)
ReFrame(b, body) == WritePacket(Without(Read(HeaderL, b, 1).v, {"HL", "FDL", "HCS"}), body)
VRL == Flat([x \in 1..NC |->
  LET body == WriteRecords(GenRecords(Key(Key(K0, 1750), x), 2, 3))
      h == PkHeader(Key(K0, 1751), 1, 0) IN
  [j \in 1..40 |-> LET k == Key(Key(K0, 1760 + x), j)
                       m == IF j <= 20 THEN j - 1 ELSE IF j <= 30 THEN (U16(body, 1) + j - 25 + 65536) % 65536 ELSE Rnd(k, 65536) IN
     DecP(WritePacket(h, [body EXCEPT ![1] = m % 256, ![2] = m \div 256]))]])
(* the last record announces data and none of it is there; or as much, less or more than announced *)
RecOf(k, x, m, data) == Write(RecordL, RecHeader(k, x) @@ [RL |-> m]) \o data
VRLEnd == Flat([j \in 1..96 |->
  LET k == Key(Key(K0, 1790), j)  m == IF j <= 64 THEN (j - 1) % 16 ELSE Rnd(k, 65536)
      x == RndByte(Key(k, 1))
      good == IF j % 3 = 0 THEN WriteRecords(GenRecords(Key(k, 2), 1, 2)) ELSE << >>
      rs == good \o RecOf(Key(k, 3), x, m, << >>)
      rt == good \o RecOf(Key(k, 4), x, m, RBytes(Key(k, 5), Rnd(Key(k, 6), 1 + (m % 16)))) IN
  << DecP(WritePacket(PkHeader(Key(k, 7), 1, 0), rs)), DecP(WritePacket(PkHeader(Key(k, 8), 1, 0), rt)),
     DecP(WritePacket(PkHeader(Key(k, 9), 0, 0), LE16(Rnd(Key(k, 10), 65536)) \o << RndByte(Key(k, 11)) >> \o rs)),
     [op |-> "decr", b |-> rs], [op |-> "decr", b |-> rt] >>])
VSRL == Flat([x \in 1..(4 * NC) |->
  LET subs == WriteSubs([i \in 1..2 |-> GenSub(Key(Key(K0, 1800 + x), i))]) IN
  [j \in 1..40 |-> LET k == Key(Key(K0, 1860 + x), j)
                       m == IF j <= 20 THEN j - 1 ELSE IF j <= 30 THEN (U16(subs, 2) + j - 25 + 65536) % 65536 ELSE Rnd(k, 65536) IN
     [op |-> "decrd", b |-> [subs EXCEPT ![2] = m % 256, ![3] = m \div 256]]]])
VTypes == [x \in 1..256 |-> [op |-> "decrd", b |-> << x - 1 >> \o LE16(5) \o RBytes(Key(K0, 1900 + x), 5)]]
(* every type with other lengths, inside a packet *)
VTypes2 == [x \in 1..768 |->
  LET t == (x - 1) % 256 k == Key(K0, 1910 + x) n == Pick(k, << 0, 1, 2, 3, 4, 6, 7, 8, 12, 30 >>)
      subs == << t >> \o LE16(n) \o RBytes(Key(k, 2), n)
      more == IF x % 2 = 0 THEN WriteSubs(<< GenSub(Key(k, 3)) >>) ELSE << >>
      rd == IF x % 3 = 0 THEN more \o subs ELSE subs \o more IN
  DecP(WritePacket(PkHeader(Key(k, 4), 1, 0), Write(RecordL, RecHeader(Key(k, 5), x % 256) @@ [RL |-> Len(rd)]) \o rd))]
VType20 == [x \in 1..40 |-> [op |-> "decrd", b |-> << 20 >> \o LE16(x - 1) \o RBytes(Key(K0, 1905 + x), x - 1)]]
(* whatever bytes *)
VJunk == [x \in 1..(NPack \div 2) |->
  LET k == Key(Key(K0, 1950), x) n == Rnd(Key(k, 1), 40) b == RBytes(Key(k, 2), n) IN
  CASE x % 5 = 0 -> DecP(b)
    [] x % 5 = 1 -> [op |-> "decr", b |-> b]
    [] x % 5 = 2 -> [op |-> "decrd", b |-> b]
    [] x % 5 = 3 -> [op |-> "decresp", b |-> b]
    [] OTHER -> Dec(SubList[1 + Rnd(Key(k, 3), Len(SubList))], b)]
(* a good frame around a random body *)
VJunkBody == [x \in 1..(NPack \div 2) |->
  LET k == Key(Key(K0, 1970), x) IN
  DecP(WritePacket(PkHeader(Key(k, 1), Rnd(Key(k, 2), 2), 0), RBytes(Key(k, 3), 1 + Rnd(Key(k, 4), 40))))]

(* texts that are shorter or longer than their fields *)
FixW == [IMEI |-> 15, IMSI |-> 16, LNGC |-> 3, NID |-> 3, MSISDN |-> 15]
VFix == Flat([x \in 1..160 |->
  LET k == Key(Key(K0, 2010), x)
      r == ReadSub(1, SubBytes(1, k, << 1, IF x % 2 = 0 THEN 255 ELSE RndByte(Key(k, 1)) >>))
      one == Pick(Key(k, 2), << "IMEI", "IMSI", "LNGC", "NID", "MSISDN" >>)
      len(f) == IF x % 4 = 3 THEN Rnd(Key(k, 3), FixW[f] + 6) ELSE Rnd(Key(k, 4), FixW[f] + 1)
      cut(f) == IF r.v[f] = << >> THEN << >> ELSE IF f = one \/ x % 4 = 0 THEN RBytes(Key(k, Len(f)), len(f)) ELSE r.v[f] IN
  << [op |-> "encfix", t |-> 1, v |-> [f \in DOMAIN r.v |-> IF f \in DOMAIN FixW THEN cut(f) ELSE r.v[f]]] >>])
(* data around the greatest length of a subrecord, a record and a packet: L is the length of each subrecord *)
Long(k, L) == [t |-> 5, v |-> [DT |-> RndByte(k), DID |-> NBytes(Key(k, 1), 4), DSCR |-> [i \in 1..(L - 5) |-> (i * 7 + (i \div 256)) % 256]]]
Overs == << << << 65525 >> >>, << << 65526 >> >>, << << 65532 >> >>, << << 65533 >> >>, << << 65535 >> >>, << << 65536 >> >>, << << 65600 >> >>, << << 131100 >> >>,
            << << 32760, 32762 >> >>, << << 32760, 32769 >> >>, << << 32760, 32770 >> >>, << << 40000, 40000 >> >>, << << 65536, 9 >> >>,
            << << 32757 >>, << 32758 >> >>, << << 32757 >>, << 32759 >> >>, << << 32762 >>, << 32770 >> >>, << << 65000 >>, << 600 >> >>, << << 9 >>, << 65600 >> >> >>
VOver == [x \in 1..(2 * Len(Overs)) |->
  LET k == Key(Key(K0, 2040), x) pt == x % 2 o == Overs[(x + 1) \div 2]
      recs == [i \in DOMAIN o |-> [h |-> RecHeader(Key(k, 10 + i), 0), subs |-> [j \in DOMAIN o[i] |-> Long(Key(k, 20 + j), o[i][j])]]] IN
  [op |-> "encp", h |-> PkHeader(Key(k, 2), pt, 0), auto |-> x % 3, rpid |-> R16(Key(k, 3)), pr |-> Code(Key(k, 4)), recs |-> RecsForDriver(recs)]]

Tag(g, s) == [j \in 1..Len(s) |-> [x \in (DOMAIN s[j]) \cup {"g"} |-> IF x = "g" THEN g ELSE s[j][x]]]
All ==
  (IF "value" \in Groups THEN Tag("value", VFlags \o VRand \o VExtra \o VPack \o VRecFlags \o VSubSets \o VResp \o VCorpus \o VBig \o VBig2) ELSE << >>)
  \o (IF "encode" \in Groups THEN Tag("encode", VEnc \o VEncP) ELSE << >>)
  \o (IF "fit" \in Groups THEN Tag("fit", VFix \o VOver) ELSE << >>)
  \o (IF "corrupt" \in Groups THEN Tag("corrupt", VFlip \o VBurst \o VSums \o VFlagged \o VBigFlip) ELSE << >>)
  \o (IF "trunc" \in Groups THEN Tag("trunc", VTrunc \o VTrunc18 \o VTruncF \o VTruncG \o VTruncP \o VTruncR \o VTruncD \o VTruncS \o VHL \o VHL2 \o VFDL \o VRL \o VRLEnd
                                 \o VSRL \o VTypes \o VTypes2 \o VType20 \o VJunk \o VJunkBody) ELSE << >>)

ASSUME ndJsonSerialize(VecFile, All)
ASSUME PrintT(<< "vectors", Len(All) >>)
=============================================================================
