----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Conformance of the real codec: every line of TraceFile is one call      *)
(* history of the library (an input made by CodecGen, what the library     *)
(* returned for it, and what it made of its own result), and is judged     *)
(* against EgtsWire.  The state machine walks the lines in Chains parallel *)
(* chains; a deviation is printed as <<"VIOLATION", property, line, why>>. *)
(***************************************************************************)
EXTENDS EgtsGen, Json
CONSTANTS TraceFile, Chains
VARIABLES chain, i

Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)

When(c, p, why) == IF c THEN {<< p, why >>} ELSE {}

(* what both directions share: the encoder's own consistency *)
EncSelf(r) ==
  IF r.eerr # 0 THEN {}
  ELSE When(r.enc1 # r.enc2, "C21", "encoding twice differs")
       \cup When(r.len # Len(r.enc1) /\ r.len # -1, "C21", "reported length differs from encoded length")

(* the library's encoding of a value and what it decodes it back to *)
RoundTrip(r, bytes, shown) ==
  When(r.eerr # 0, "C18", "a legal value was not encoded")
  \cup (IF r.eerr # 0 THEN {}
        ELSE When(r.enc1 # bytes, "C18", "encoded bytes differ from the layout")
             \cup When(r.derr # 0, "C18", "own encoding not decoded")
             \cup (IF r.derr # 0 THEN {} ELSE When(r.v2 # shown, "C18", "decoding the encoding gives another value")))

CanonSubs(rd) == [j \in 1..Len(rd) |-> [t |-> rd[j].SRT, v |-> Unview(rd[j].SRT, rd[j].SRD)]]
CanonRecs(v) == [j \in 1..Len(v) |-> [h |-> Without(v[j], {"RL", "RD"}), subs |-> CanonSubs(v[j].RD)]]
(* what the canonical form shows: lengths recomputed, trailing data gone *)
ShownSubs(subs) == [j \in 1..Len(subs) |-> [SRT |-> subs[j].t, SRL |-> Len(WriteSub(subs[j].t, subs[j].v)),
                                           SRD |-> View(subs[j].t, subs[j].v)]]

(* [bytes, shown] of the canonical form of what was read *)
Canon(o, s) ==
  CASE o.op = "dec" -> [bytes |-> WriteSub(o.t, Unview(o.t, s.v)), shown |-> s.v]
    [] o.op = "decrd" -> [bytes |-> WriteSubs(CanonSubs(s.v)), shown |-> ShownSubs(CanonSubs(s.v))]
    [] o.op = "decr" -> [bytes |-> WriteRecords(CanonRecs(s.v)), shown |-> RecsShown(CanonRecs(s.v))]
    [] o.op = "decresp" -> LET c == CanonRecs(s.v.SDR) IN
          [bytes |-> BodyOf(0, s.v.RPID, s.v.PR, c), shown |-> [s.v EXCEPT !.SDR = RecsShown(c)]]

SpecRead(o) ==
  CASE o.op = "dec" -> ReadSub(o.t, o.b)
    [] o.op = "decrd" -> ReadSubs(o.b)
    [] o.op = "decr" -> ReadRecords(o.b)
    [] o.op = "decresp" -> ReadResponse(o.b)

Decoded(o) ==
  LET r == o.out s == SpecRead(o) IN
  IF s.u THEN {}
  ELSE IF ~s.ok THEN When(r.err # 1, "C20", "short or contradictory data accepted")
  ELSE IF r.err # 0 THEN {<< "C17", "well-formed data refused" >>}
  ELSE LET c == Canon(o, s) IN
       When(r.v # s.v, "C17", "decoded value differs")
       \cup RoundTrip(r, c.bytes, c.shown) \cup EncSelf(r)

PackCanon(h, body) ==
  LET recs == IF h.PT = 0 THEN CanonRecs(body.SDR) ELSE CanonRecs(body)
      raw == IF h.PT = 0 THEN BodyOf(0, body.RPID, body.PR, recs) ELSE WriteRecords(recs)
      h1 == Without(h, {"HL", "FDL", "HCS", "SFRCS"})
      bytes == WritePacket(h1, raw)
      back == ReadPacket(bytes)
  IN [bytes |-> bytes, back |-> back]

PackRoundTrip(r, c) ==
  When(r.eerr # 0, "C18", "a legal packet was not encoded")
  \cup (IF r.eerr # 0 THEN {}
        ELSE When(r.enc1 # c.bytes, "C18", "encoded packet differs from the layout")
             \cup When(r.enc1 # r.enc2, "C21", "encoding a packet twice differs")
             \cup When(~ReadPacket(r.enc1).ok, "C21", "encoded packet is not a self-consistent frame")
             \cup When(r.derr # 0 \/ r.dcode # 0, "C18", "own encoding of a packet not decoded")
             \cup (IF r.derr # 0 THEN {}
                   ELSE When(r.h2 # c.back.h, "C18", "decoding the encoded packet gives another header")
                        \cup When(IF r.h2.PT # c.back.h.PT THEN TRUE ELSE r.v2 # c.back.body,
                                  "C18", "decoding the encoded packet gives another body")))

Packet(o) ==
  LET r == o.out s == ReadPacket(o.b) IN
  IF s.u THEN {}
  ELSE IF s.ok
  THEN IF r.err # 0 \/ r.code # 0
       THEN {<< "C17", "well-formed packet refused" >>}
            \cup When(r.code \in {137, 138}, "C19", "right checksum reported as wrong")
       ELSE When(r.h # s.h, "C17", "decoded packet header differs")
            \cup When(r.kind # (IF s.h.PT = 0 THEN "resp" ELSE "sds"), "C17", "wrong kind of packet body")
            \cup (IF r.kind # (IF s.h.PT = 0 THEN "resp" ELSE "sds") THEN {}
                  ELSE When(r.v # s.body, "C17", "decoded packet body differs"))
            \cup PackRoundTrip(r, PackCanon(s.h, s.body))
  ELSE LET acc == r.err # 1 \/ r.code = 0 IN
       When(acc /\ o.g = "corrupt", "C19", "damaged packet passed as good")
       \cup When(acc /\ (s.codes \cap {137, 138} # {}) /\ o.g # "corrupt", "C19", "packet with a wrong checksum passed as good")
       \cup When(acc /\ o.g # "corrupt", "C20", "inconsistent packet accepted")
       \cup When(~acc /\ s.codes \in {{137}, {138}} /\ r.code \notin s.codes, "C19", "wrong checksum reported with another code")

Encoded(o) ==
  LET r == o.out v == Unview(o.t, o.v) IN
  RoundTrip(r, WriteSub(o.t, v), View(o.t, v)) \cup EncSelf(r)

(* a text that is shorter than its field is filled up, or refused; a longer one is refused *)
FixW == [IMEI |-> 15, IMSI |-> 16, LNGC |-> 3, NID |-> 3, MSISDN |-> 15]
FixC == [IMEI |-> "IMEIE", IMSI |-> "IMSIE", LNGC |-> "LNGCE", NID |-> "NIDE", MSISDN |-> "MNE"]
EncodedFix(o) ==
  LET r == o.out s == ReadSub(o.t, r.enc1) on == {f \in DOMAIN FixW : o.v[FixC[f]] = 1} IN
  IF r.eerr # 0 THEN {}
  ELSE IF \E f \in on : Len(o.v[f]) > FixW[f] THEN {<< "C21", "a text longer than its field was encoded" >>}
  ELSE EncSelf(r)
       \cup When(~s.ok \/ r.derr # 0, "C21", "encoding of a short text cannot be decoded")
       \cup (IF ~s.ok THEN {}
             ELSE When(Len(WriteSub(o.t, s.v)) # Len(r.enc1), "C21", "encoding of a short text is longer than its fields")
                  \cup When(\E f \in (DOMAIN s.v) \ (DOMAIN FixW) : s.v[f] # o.v[f], "C21", "a short text displaces another field")
                  \cup When(\E f \in on : SubSeq(s.v[f], 1, Len(o.v[f])) # o.v[f], "C21", "a short text displaces another field"))

(* what the length fields can hold *)
TooLong(o) ==
  LET subs(a) == [j \in 1..Len(o.recs[a].subs) |-> Len(WriteSub(o.recs[a].subs[j].t, Unview(o.recs[a].subs[j].t, o.recs[a].subs[j].v)))]
      rec(a) == FoldLeft(LAMBDA x, y : x + y + 3, 0, subs(a))
      head(a) == Len(Write(RecordL, o.recs[a].h @@ [RL |-> 0])) IN
  \/ \E a \in 1..Len(o.recs) : rec(a) > 65535 \/ \E j \in DOMAIN subs(a) : subs(a)[j] > 65535
  \/ FoldLeft(LAMBDA x, a : x + head(a) + rec(a), IF o.h.PT = 0 THEN 3 ELSE 0, [a \in 1..Len(o.recs) |-> a]) > 65535

EncodedP(o) ==
  IF o.g = "fit" /\ (IF o.g = "fit" THEN TooLong(o) ELSE FALSE)
  THEN When(o.out.eerr = 0, "C21", "data longer than their length field were encoded")
  ELSE
  LET recs == [a \in 1..Len(o.recs) |-> [h |-> o.recs[a].h,
                 subs |-> [j \in 1..Len(o.recs[a].subs) |-> [t |-> o.recs[a].subs[j].t,
                             v |-> Unview(o.recs[a].subs[j].t, o.recs[a].subs[j].v)]]]]
      raw == BodyOf(o.h.PT, o.rpid, o.pr, recs)
      h1 == Without(o.h, {"SFRCS"})
      bytes == WritePacket(h1, raw)
  IN PackRoundTrip(o.out, [bytes |-> bytes, back |-> ReadPacket(bytes)])
     \cup When(o.out.eerr = 0 /\ o.out.len # Len(raw), "C21", "reported body length differs from encoded length")

(* which promise a crash breaks: decoding what is well-formed, encoding it, reading the encoding *)
Crash(o) ==
  LET st == o.out.stage IN
  IF o.op \in {"enc", "encfix", "encp"} THEN {<< "C18", "panic" >>, << "C21", "panic" >>}
  ELSE LET s == IF o.op = "decp" THEN ReadPacket(o.b) ELSE SpecRead(o) IN
       IF s.u \/ ~s.ok THEN {}
       ELSE IF st \in {"decode", "process"} THEN {<< "C17", "panic on well-formed data" >>} ELSE {<< "C18", "panic" >>}
Judge(o) ==
  When(o.out.panicked = 1, "C20", "panic")
  \cup When(o.out.touched = 1, "C17", "decoding changed its input")
  \cup (IF o.out.panicked = 1 THEN Crash(o) ELSE {})
  \cup When(o.out.kept = 0, "C21", "encoding changed the value it encoded")
  \cup (IF o.out.panicked = 1 THEN {}
        ELSE CASE o.op \in {"dec", "decrd", "decr", "decresp"} -> Decoded(o)
               [] o.op = "decp" -> Packet(o)
               [] o.op = "enc" -> Encoded(o)
               [] o.op = "encfix" -> EncodedFix(o)
               [] o.op = "encp" -> EncodedP(o))

Init == chain \in 1..Chains /\ i = chain
Line(k) == \A v \in Judge(Trace[k]) : PrintT(<< "VIOLATION", v[1], k, v[2] >>)
Next == /\ i <= N
        /\ Line(i)
        /\ i' = i + Chains
        /\ UNCHANGED chain
Spec == Init /\ [][Next]_<< chain, i >>
(* every line was judged: Chains initial states plus one state per line *)
Consumed == TLCGet("stats").distinct = Chains + N
=============================================================================
