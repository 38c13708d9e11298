------------------------------ MODULE EgtsWire ------------------------------
(***************************************************************************)
(* The EGTS wire format (GOST R 54619-2011, order 285) as this gateway     *)
(* supports it.  Every structure is a LAYOUT - a sequence of field         *)
(* descriptions - and one generic reader and one generic writer give its   *)
(* meaning in both directions, so that the two cannot disagree.            *)
(*                                                                         *)
(* Values: flags and 8/16-bit numbers are naturals, 24- and 32-bit numbers *)
(* four bytes little endian, texts byte sequences.  A field that is not on *)
(* the wire has its kind's empty value.                                    *)
(***************************************************************************)
EXTENDS Bytes

F(n, k)     == [n |-> n, k |-> k, c |-> ""]
O(n, k, c)  == [n |-> n, k |-> k, c |-> c]               \* only if flag c = 1
T(n, w, c)  == [n |-> n, k |-> "fix", w |-> w, c |-> c]  \* w bytes of text
B8(ns)      == [n |-> "", k |-> "bits8", c |-> "", ns |-> ns]
B16(ns)     == [n |-> "", k |-> "bits16", c |-> "", ns |-> ns]

HeaderL == << F("PRV","u8"), F("SKID","u8"),
  B8(<< <<"PRF",2>>, <<"RTE",1>>, <<"ENA",2>>, <<"CMP",1>>, <<"PR",2>> >>),
  F("HL","u8"), F("HE","u8"), F("FDL","u16"), F("PID","u16"), F("PT","u8"),
  O("PRA","u16","RTE"), O("RCA","u16","RTE"), O("TTL","u8","RTE"), F("HCS","u8") >>

RecordL == << F("RL","u16"), F("RN","u16"),
  B8(<< <<"SSOD",1>>, <<"RSOD",1>>, <<"GRP",1>>, <<"RPP",2>>, <<"TMFE",1>>, <<"EVFE",1>>, <<"OBFE",1>> >>),
  O("OID","u32","OBFE"), O("EVID","u32","EVFE"), O("TM","u32","TMFE"),
  F("SST","u8"), F("RST","u8") >>

ResponseL == << F("RPID","u16"), F("PR","u8") >>

SrResponseL == << F("CRN","u16"), F("RST","u8") >>
TermIdentityL == << F("TID","u32"),
  B8(<< <<"MNE",1>>, <<"BSE",1>>, <<"NIDE",1>>, <<"SSRA",1>>, <<"LNGCE",1>>, <<"IMSIE",1>>, <<"IMEIE",1>>, <<"HDIDE",1>> >>),
  O("HDID","u16","HDIDE"), T("IMEI",15,"IMEIE"), T("IMSI",16,"IMSIE"), T("LNGC",3,"LNGCE"),
  T("NID",3,"NIDE"), O("BS","u16","BSE"), T("MSISDN",15,"MNE") >>
DispatcherL == << F("DT","u8"), F("DID","u32"), F("DSCR","rest") >>
AuthInfoL == << F("UNM","zstr"), F("UPSW","zstr"), F("SS","zopt") >>
ResultCodeL == << F("RCD","u8") >>
PosDataL == << F("NTM","u32"), F("LAT","u32"), F("LONG","u32"),
  B8(<< <<"ALTE",1>>, <<"LOHS",1>>, <<"LAHS",1>>, <<"MV",1>>, <<"BB",1>>, <<"CS",1>>, <<"FIX",1>>, <<"VLD",1>> >>),
  B16(<< <<"DIRH",1>>, <<"ALTS",1>>, <<"SPDR",14>> >>),
  F("DIRR","u8"), F("ODM","u24"), F("DIN","u8"), F("SRC","u8"), O("ALT","u24","ALTE") >>
ExtPosL == << B8(<< <<"",3>>, <<"NSFE",1>>, <<"SFE",1>>, <<"PFE",1>>, <<"HFE",1>>, <<"VFE",1>> >>),
  O("VDOP","u16","VFE"), O("HDOP","u16","HFE"), O("PDOP","u16","PFE"), O("SAT","u8","SFE"), O("NS","u16","NSFE") >>

Nth(p) == << p \o "1", p \o "2", p \o "3", p \o "4", p \o "5", p \o "6", p \o "7", p \o "8" >>
Flags8(p) == B8([i \in 1..8 |-> << Nth(p)[9-i], 1 >>])      \* bit 7 is number 8
AdSensorsL == << Flags8("DIOE"), F("DOUT","u8"), Flags8("ASFE") >>
  \o [i \in 1..8 |-> O(Nth("ADIO")[i], "u8", Nth("DIOE")[i])]
  \o [i \in 1..8 |-> O(Nth("ANS")[i], "u24", Nth("ASFE")[i])]
CountersL == << Flags8("CFE") >> \o [i \in 1..8 |-> O(Nth("CN")[i], "u24", Nth("CFE")[i])]
StateDataL == << F("ST","u8"), F("MPSV","u8"), F("BBV","u8"), F("IBV","u8"),
  B8(<< <<"",5>>, <<"NMS",1>>, <<"IBU",1>>, <<"BBU",1>> >>) >>
AbsAnL == << F("SensorNumber","u8"), F("Value","u24") >>
AbsCntrL == << F("CN","u8"), F("CNV","u24") >>
LiquidL == << B8(<< <<"",1>>, <<"LLSEF",1>>, <<"LLSVU",2>>, <<"RDF",1>>, <<"LLSN",3>> >>),
  F("MADDR","u16"), F("LLSD","u32") >>

SubTypes == {0, 1, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27}
PlainTypes == SubTypes \ {15}
Layouts == [t \in PlainTypes |->
  CASE t = 0 -> SrResponseL [] t = 1 -> TermIdentityL [] t = 5 -> DispatcherL
    [] t = 7 -> AuthInfoL [] t = 9 -> ResultCodeL [] t = 16 -> PosDataL [] t = 17 -> ExtPosL
    [] t = 18 -> AdSensorsL [] t = 19 -> CountersL [] t = 20 -> StateDataL [] t = 21 -> StateDataL
    [] t = 24 -> AbsAnL [] t = 25 -> AbsCntrL [] t = 27 -> LiquidL]

(*------------------------------- reading --------------------------------*)
Width(f) == CASE f.k = "u8" -> 1 [] f.k = "u16" -> 2 [] f.k = "u24" -> 3 [] f.k = "u32" -> 4
              [] f.k = "bits8" -> 1 [] f.k = "bits16" -> 2 [] f.k = "fix" -> f.w [] OTHER -> 0
Empty(f) == CASE f.k \in {"u8", "u16"} -> 0 [] f.k \in {"u24", "u32"} -> Zero4 [] OTHER -> << >>

(* <<name, width>> list, most significant first, out of x *)
RECURSIVE BitVals(_, _, _, _)
BitVals(ns, i, x, acc) ==
  IF i = 0 THEN acc
  ELSE LET w == ns[i][2] m == Pow2[w] IN
       BitVals(ns, i - 1, x \div m, IF ns[i][1] = "" THEN acc ELSE (ns[i][1] :> (x % m)) @@ acc)

ReadField(b, st, f) ==
  IF ~st.ok THEN st
  ELSE IF f.c # "" /\ (IF f.c = "" THEN FALSE ELSE st.v[f.c] = 0)
    THEN [st EXCEPT !.v = @ @@ (f.n :> Empty(f))]
  ELSE IF st.p + Width(f) - 1 > Len(b) THEN [st EXCEPT !.ok = FALSE]
  ELSE
  CASE f.k = "u8"   -> [st EXCEPT !.p = @ + 1, !.v = @ @@ (f.n :> b[st.p])]
    [] f.k = "u16"  -> [st EXCEPT !.p = @ + 2, !.v = @ @@ (f.n :> U16(b, st.p))]
    [] f.k = "u24"  -> [st EXCEPT !.p = @ + 3, !.v = @ @@ (f.n :> U24x(b, st.p))]
    [] f.k = "u32"  -> [st EXCEPT !.p = @ + 4, !.v = @ @@ (f.n :> U32x(b, st.p))]
    [] f.k = "fix"  -> [st EXCEPT !.p = @ + f.w, !.v = @ @@ (f.n :> Sub(b, st.p, f.w))]
    [] f.k = "rest" -> [st EXCEPT !.p = Len(b) + 1, !.v = @ @@ (f.n :> SubSeq(b, st.p, Len(b)))]
    [] f.k = "zstr" \/ (f.k = "zopt" /\ st.p <= Len(b)) ->
         LET z == FindZero(b, st.p) IN
         IF z = 0 THEN [st EXCEPT !.ok = FALSE]
         ELSE [st EXCEPT !.p = z + 1, !.v = @ @@ (f.n :> SubSeq(b, st.p, z - 1))]
    [] f.k = "zopt" -> [st EXCEPT !.v = @ @@ (f.n :> << >>)]
    [] f.k = "bits8" -> [st EXCEPT !.p = @ + 1, !.v = @ @@ BitVals(f.ns, Len(f.ns), b[st.p], << >>)]
    [] f.k = "bits16" -> [st EXCEPT !.p = @ + 2, !.v = @ @@ BitVals(f.ns, Len(f.ns), U16(b, st.p), << >>)]

Read(L, b, p) == FoldLeft(LAMBDA st, f : ReadField(b, st, f), [ok |-> TRUE, p |-> p, v |-> << >>], L)

(*------------------------------- writing --------------------------------*)
RECURSIVE BitsOf(_, _, _, _)
BitsOf(ns, i, v, acc) ==
  IF i > Len(ns) THEN acc
  ELSE BitsOf(ns, i + 1, v, acc * Pow2[ns[i][2]] + (IF ns[i][1] = "" THEN 0 ELSE v[ns[i][1]]))

PadTo(s, n) == IF Len(s) < n THEN s \o Zeros(n - Len(s)) ELSE SubSeq(s, 1, n)

WriteField(v, f) ==
  IF f.c # "" /\ (IF f.c = "" THEN FALSE ELSE v[f.c] = 0) THEN << >>
  ELSE
  CASE f.k = "u8" -> << v[f.n] >> [] f.k = "u16" -> LE16(v[f.n])
    [] f.k = "u24" -> SubSeq(v[f.n], 1, 3) [] f.k = "u32" -> v[f.n]
    [] f.k = "fix" -> PadTo(v[f.n], f.w)
    [] f.k = "rest" -> v[f.n]
    [] f.k = "zstr" -> v[f.n] \o << 0 >>
    [] f.k = "zopt" -> IF v[f.n] = << >> THEN << >> ELSE v[f.n] \o << 0 >>
    [] f.k = "bits8" -> << BitsOf(f.ns, 1, v, 0) >>
    [] f.k = "bits16" -> LE16(BitsOf(f.ns, 1, v, 0))

Write(L, v) == FoldLeft(LAMBDA acc, f : acc \o WriteField(v, f), << >>, L)

Without(v, S) == [x \in (DOMAIN v) \ S |-> v[x]]

(*----------------------- EGTS-plus (protobuf) subset --------------------*)
(* StorageRecord: record_number = 1 (varint), time_stamp = 2 (fixed32),    *)
(* record_reason = 3 (repeated varint), status_flags = 4 (fixed32),        *)
(* sens_fuel_level = 8 {sens_num = 1, value_mm.. as varints}.              *)
Varint(x) ==
  LET g == << x[1] % 128,
              (x[1] \div 128) + (x[2] % 64) * 2,
              (x[2] \div 64) + (x[3] % 32) * 4,
              (x[3] \div 32) + (x[4] % 16) * 8,
              x[4] \div 16 >>
      top == CHOOSE n \in 1..5 : /\ \A m \in (n+1)..5 : g[m] = 0
                                 /\ n = 1 \/ g[n] # 0
  IN [i \in 1..top |-> IF i = top THEN g[i] ELSE g[i] + 128]
(* inverse: the value read at p and the position behind it *)
ReadVarint(b, p) ==
  LET ends == {i \in p..(p + 4) : i <= Len(b) /\ b[i] < 128 /\ \A j \in p..(i-1) : b[j] >= 128}
  IN IF ends = {} THEN [ok |-> FALSE, p |-> p, v |-> Zero4]
     ELSE LET e == CHOOSE i \in ends : TRUE
              g == [i \in 1..5 |-> IF p + i - 1 <= e THEN b[p + i - 1] % 128 ELSE 0]
          IN [ok |-> TRUE, p |-> e + 1,
              v |-> << g[1] + (g[2] % 2) * 128, g[2] \div 2 + (g[3] % 4) * 64,
                       g[3] \div 4 + (g[4] % 8) * 32, g[4] \div 8 + (g[5] % 16) * 16 >>]
PlusWrite(v) ==
  << 8 >> \o Varint(v.RN) \o << 21 >> \o v.TS
  \o FoldLeft(LAMBDA acc, x : acc \o << 24 >> \o Varint(LE32(x)), << >>, v.RR)
  \o << 37 >> \o v.SF
  \o FoldLeft(LAMBDA acc, x : acc \o Varint(LE32(x.f * 8 + 2)) \o Varint(LE32(Len(x.b))) \o x.b, << >>, v.SN)

(* nested messages: ascending one-byte tags, minimal varints *)
Minimal(b, p, e) == e = p + 1 \/ b[e - 1] # 0
RECURSIVE NestedPlain(_, _, _)
NestedPlain(b, p, last) ==
  IF p > Len(b) THEN TRUE
  ELSE LET f == b[p] \div 8 w == b[p] % 8 IN
  IF b[p] >= 128 \/ f <= last THEN FALSE
  ELSE IF w = 0 THEN LET n == ReadVarint(b, p + 1) IN n.ok /\ Minimal(b, p + 1, n.p) /\ NestedPlain(b, n.p, f)
  ELSE IF w = 5 THEN p + 4 <= Len(b) /\ NestedPlain(b, p + 5, f)
  ELSE FALSE

(* Anything but the plain form (fields in ascending order, each with its    *)
(* own wire type, minimal varints) is outside this specification: u = TRUE. *)
PlusBad == [ok |-> FALSE, u |-> FALSE, v |-> << >>]
PlusOther == [ok |-> FALSE, u |-> TRUE, v |-> << >>]
PlusNested == 7..24
RECURSIVE PlusFields(_, _, _, _)
PlusFields(b, p, last, v) ==
  IF p > Len(b)
  THEN IF v.got = {1, 2, 4} THEN [ok |-> TRUE, u |-> FALSE, v |-> Without(v, {"got"})] ELSE PlusBad
  ELSE LET tag == ReadVarint(b, p) IN
  IF ~tag.ok THEN (IF p + 4 > Len(b) THEN PlusBad ELSE PlusOther)
  ELSE LET t == tag.v[1] + 256 * tag.v[2]
           f == t \div 8  w == t % 8 IN
  IF tag.v[3] # 0 \/ tag.v[4] # 0 \/ f < last \/ ~Minimal(b, p, tag.p) THEN PlusOther
  ELSE IF f = 1 /\ w = 0 /\ 1 \notin v.got
    THEN LET n == ReadVarint(b, tag.p) IN
         IF ~n.ok THEN (IF tag.p + 4 > Len(b) THEN PlusBad ELSE PlusOther)
         ELSE IF ~Minimal(b, tag.p, n.p) \/ (n.p = tag.p + 5 /\ b[n.p - 1] > 15) THEN PlusOther
         ELSE PlusFields(b, n.p, f, [v EXCEPT !.RN = n.v, !.got = @ \cup {1}])
  ELSE IF f = 3 /\ w = 0
    THEN LET n == ReadVarint(b, tag.p) IN
         IF ~n.ok THEN (IF tag.p + 4 > Len(b) THEN PlusBad ELSE PlusOther)
         ELSE IF ~Minimal(b, tag.p, n.p) \/ n.v[3] # 0 \/ n.v[4] # 0 THEN PlusOther
         ELSE PlusFields(b, n.p, f, [v EXCEPT !.RR = Append(@, n.v[1] + 256 * n.v[2])])
  ELSE IF f \in {2, 4} /\ w = 5 /\ f \notin v.got
    THEN IF tag.p + 3 > Len(b) THEN PlusBad
         ELSE PlusFields(b, tag.p + 4, f,
                IF f = 2 THEN [v EXCEPT !.TS = Sub(b, tag.p, 4), !.got = @ \cup {2}]
                ELSE [v EXCEPT !.SF = Sub(b, tag.p, 4), !.got = @ \cup {4}])
  ELSE IF f \in PlusNested /\ w = 2
    THEN LET n == ReadVarint(b, tag.p) IN
         IF ~n.ok THEN (IF tag.p + 4 > Len(b) THEN PlusBad ELSE PlusOther)
         ELSE IF ~Minimal(b, tag.p, n.p) THEN PlusOther
         ELSE IF n.v[3] # 0 \/ n.v[4] # 0 \/ n.p + n.v[1] + 256 * n.v[2] - 1 > Len(b) THEN PlusBad
         ELSE LET m == Sub(b, n.p, n.v[1] + 256 * n.v[2]) IN
              IF ~NestedPlain(m, 1, 0) THEN PlusOther
              ELSE PlusFields(b, n.p + Len(m), f, [v EXCEPT !.SN = Append(@, [f |-> f, b |-> m])])
  ELSE PlusOther
PlusRead(b) == PlusFields(b, 1, 0, [RN |-> Zero4, TS |-> Zero4, SF |-> Zero4, RR |-> << >>, SN |-> << >>, got |-> {}])

(*------------------ what the public structures expose -------------------*)
(* The position structure exposes whole km/h and a direction whose top bit *)
(* is or-ed with the separate high bit; everything else is as on the wire. *)
View(t, v) ==
  IF t = 16 THEN Without(v, {"SPDR", "DIRR"}) @@
       [SPD |-> v.SPDR \div 10,
        DIR |-> IF v.DIRH = 1 /\ v.DIRR < 128 THEN v.DIRR + 128 ELSE v.DIRR,
        SRCD |-> 0]
  ELSE v
(* inverse on values whose tenths are zero *)
Unview(t, w) ==
  IF t = 16 THEN Without(w, {"SPD", "DIR", "SRCD"}) @@
       [SPDR |-> w.SPD * 10, DIRR |-> IF w.DIRH = 1 /\ w.DIR >= 128 THEN w.DIR - 128 ELSE w.DIR]
  ELSE w

WriteSub(t, v) == IF t = 15 THEN PlusWrite(v) ELSE Write(Layouts[t], v)

(*------------------------- nested structures ----------------------------*)
(* A reader of nested data yields [ok, u, v]; u: outside the specification. *)
(* ho: a record header at the very end whose data are missing altogether; a  *)
(* record set alone may be such a bare header, a packet may not.             *)
Bad == [ok |-> FALSE, u |-> FALSE, v |-> << >>, ho |-> FALSE]
Good(v) == [ok |-> TRUE, u |-> FALSE, v |-> v, ho |-> FALSE]
RECURSIVE ReadRecords(_), ReadSubs(_), ReadSub(_, _)
ReadSub(t, b) ==
  IF t = 15 THEN LET x == PlusRead(b) IN [Good(x.v) EXCEPT !.ok = x.ok, !.u = x.u]
  ELSE IF t \notin PlainTypes THEN Bad
  ELSE LET r == Read(Layouts[t], b, 1) IN
       IF ~r.ok
         (* raw liquid-level data may be of any length: how it is shown is open *)
         THEN [Bad EXCEPT !.u = t = 27 /\ Len(b) >= 3 /\ (IF Len(b) = 0 THEN FALSE ELSE Bit(b[1], 3) = 1)]
       ELSE IF t = 0 /\ r.p <= Len(b)
         THEN LET x == ReadRecords(SubSeq(b, r.p, Len(b))) IN [Good(r.v) EXCEPT !.ok = x.ok, !.u = x.u]
       ELSE Good(View(t, r.v))
(* one by one; res is the result once there is one *)
SubsStep(b, st) ==
  IF st.done THEN st
  ELSE LET p == st.p Fail(r) == [st EXCEPT !.done = TRUE, !.res = r] IN
  IF p > Len(b) THEN [st EXCEPT !.done = TRUE]
  ELSE IF p + 2 > Len(b) THEN Fail(Bad)
  ELSE LET n == U16(b, p + 1) IN
       IF p + 2 + n > Len(b) \/ (b[p] = 20 /\ n # 5) THEN Fail(Bad)
       ELSE LET s == ReadSub(b[p], Sub(b, p + 3, n)) IN
            IF ~s.ok THEN Fail([Bad EXCEPT !.u = s.u])
            ELSE [st EXCEPT !.p = p + 3 + n, !.acc = Append(@, [SRT |-> b[p], SRL |-> n, SRD |-> s.v])]
Start == [done |-> FALSE, p |-> 1, acc |-> << >>, res |-> Good(<< >>)]
Outcome1(st) == IF st.res.ok THEN Good(st.acc) ELSE st.res
ReadSubs(b) ==
  Outcome1(FoldLeft(LAMBDA st, x : SubsStep(b, st), Start, [x \in 1..(Len(b) \div 3 + 1) |-> x]))
RecordsStep(b, st) ==
  IF st.done THEN st
  ELSE LET p == st.p Fail(r) == [st EXCEPT !.done = TRUE, !.res = r] IN
  IF p > Len(b) THEN [st EXCEPT !.done = TRUE]
  ELSE LET h == Read(RecordL, b, p) IN
       IF ~h.ok THEN Fail(Bad)
       ELSE IF h.v.RL > 0 /\ h.p > Len(b) THEN Fail([Bad EXCEPT !.u = TRUE, !.ho = TRUE])
       ELSE IF h.p + h.v.RL - 1 > Len(b) THEN Fail(Bad)
       ELSE LET d == ReadSubs(Sub(b, h.p, h.v.RL)) IN
            IF ~d.ok THEN Fail([Bad EXCEPT !.u = d.u])
            ELSE [st EXCEPT !.p = h.p + h.v.RL, !.acc = Append(@, h.v @@ [RD |-> d.v])]
ReadRecords(b) ==
  Outcome1(FoldLeft(LAMBDA st, x : RecordsStep(b, st), Start, [x \in 1..(Len(b) \div 7 + 1) |-> x]))
ReadResponse(b) ==
  LET h == Read(ResponseL, b, 1) IN
  IF ~h.ok THEN Bad
  ELSE IF h.p > Len(b) THEN Good(h.v @@ [SDR |-> << >>])
  ELSE LET d == ReadRecords(SubSeq(b, h.p, Len(b))) IN
       [d EXCEPT !.v = h.v @@ [SDR |-> d.v]]

(* Lengths the header announces. *)
HeaderSize(v) == IF v.RTE = 1 THEN 16 ELSE 11
FrameSize(b) == LET fdl == U16(b, 6) IN b[4] + (IF fdl = 0 THEN 0 ELSE fdl + 2)

(***************************************************************************)
(* The verdict on one packet: ok, the set of result codes that may be      *)
(* reported (several faults at once leave a choice), header and body.      *)
(***************************************************************************)
Refused(codes, h) == [ok |-> FALSE, u |-> FALSE, codes |-> codes, h |-> h, body |-> << >>]
ReadPacket(b) ==
  LET r == Read(HeaderL, b, 1) IN
  IF ~r.ok THEN Refused({131}, r.v)
  ELSE
  LET h == r.v
      hsz == HeaderSize(h)
      hcsOk == h.HCS = Crc8(SubSeq(b, 1, hsz - 1))
  IN
  IF h.HL # hsz THEN Refused({131, 137}, h)
  ELSE IF ~hcsOk THEN Refused({137}, h)
  ELSE IF h.FDL = 0 THEN Refused(IF h.PT \in {0, 1} THEN {132} ELSE {132, 133}, h)
  ELSE IF hsz + h.FDL + 2 > Len(b)
    THEN Refused(IF h.PT \in {0, 1} THEN {129, 132, 138} ELSE {129, 132, 133, 138}, h)
  ELSE
  LET body == Sub(b, hsz + 1, h.FDL)
      crcOk == U16(b, hsz + h.FDL + 1) = Crc16(body)
      c == IF h.PT = 1 THEN ReadRecords(body)
           ELSE IF h.PT = 0 THEN ReadResponse(body) ELSE Bad
  IN
  IF h.PT \notin {0, 1} THEN Refused(IF crcOk THEN {133} ELSE {133, 138}, h)
  ELSE IF ~crcOk THEN Refused(IF c.ok THEN {138} ELSE {129, 138}, h)
  ELSE IF ~c.ok THEN [Refused({129}, h) EXCEPT !.u = c.u /\ ~c.ho]
  ELSE [ok |-> TRUE, u |-> FALSE, codes |-> {0}, h |-> h @@ [SFRCS |-> U16(b, hsz + h.FDL + 1)], body |-> c.v]

(*------------------------------ building --------------------------------*)
WriteSubs(rd) ==
  FoldLeft(LAMBDA acc, s : LET d == WriteSub(s.t, s.v) IN acc \o << s.t >> \o LE16(Len(d)) \o d, << >>, rd)
(* r: record header values (without RL) plus subs: sequence of [t, v] *)
WriteRecord(r) == LET d == WriteSubs(r.subs) IN Write(RecordL, r.h @@ [RL |-> Len(d)]) \o d
WriteRecords(rs) == FoldLeft(LAMBDA acc, r : acc \o WriteRecord(r), << >>, rs)
(* h: header values without HL, FDL, HCS *)
WritePacket(h, body) ==
  LET hh == h @@ [HL |-> IF h.RTE = 1 THEN 16 ELSE 11, FDL |-> Len(body), HCS |-> 0]
      raw == Write(HeaderL, hh)
      head == SubSeq(raw, 1, Len(raw) - 1)
  IN head \o << Crc8(head) >> \o (IF Len(body) = 0 THEN << >> ELSE body \o LE16(Crc16(body)))
=============================================================================
