------------------------------- MODULE EgtsGen -------------------------------
(***************************************************************************)
(* Construction of EGTS data from the specification's own layouts, driven  *)
(* by splittable pseudo-random keys: everything below is a function of its *)
(* key, so that a case can be rebuilt from the seed alone.                 *)
(***************************************************************************)
EXTENDS EgtsWire

NonZero(b) == [i \in 1..Len(b) |-> IF b[i] = 0 THEN 46 ELSE b[i]]

(* numbers: whatever, but the ends of the range and round values come up often *)
NBytes(k, n) ==
  LET w == Rnd(Key(k, 61), 16) IN
  CASE w = 0 -> Zeros(n)
    [] w = 1 -> [i \in 1..n |-> 255]
    [] w = 2 -> [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
    [] w = 3 -> [i \in 1..n |-> IF i = n THEN 127 ELSE 255]
    [] w = 4 -> [i \in 1..n |-> IF i = 1 THEN RndByte(Key(k, 62)) ELSE 0]
    [] w = 5 -> [i \in 1..n |-> IF i = n THEN RndByte(Key(k, 62)) ELSE 255]
    [] OTHER -> RBytes(k, n)
(* texts: whatever, digits, words, and what careless trimming or folding would change *)
TBytes(k, n) ==
  LET w == Rnd(Key(k, 63), 16)
      word == [i \in 1..n |-> Pick(Key(Key(k, 64), i), << 97, 66, 122, 90, 48, 57, 95, 45, 46, 64 >>)] IN
  CASE w = 0 -> Zeros(n)
    [] w = 1 -> [i \in 1..n |-> 48 + Rnd(Key(Key(k, 65), i), 10)]
    [] w = 2 -> [i \in 1..n |-> IF 2 * i > n THEN 0 ELSE word[i]]
    [] w = 3 -> [i \in 1..n |-> IF i = n \/ i = 1 THEN 32 ELSE word[i]]
    [] w = 4 -> [i \in 1..n |-> IF i = n THEN 10 ELSE IF i = n - 1 THEN 13 ELSE word[i]]
    [] w = 5 -> [i \in 1..n |-> IF i % 2 = 1 THEN 207 ELSE 208]         \* Windows-1251 or broken UTF-8
    [] w = 6 -> [i \in 1..n |-> IF i % 2 = 1 THEN 208 ELSE 144 + (i % 32)]   \* Cyrillic
    [] w = 7 -> [i \in 1..n |-> IF i = n THEN 0 ELSE word[i]]
    [] w \in 8..9 -> word
    [] OTHER -> RBytes(k, n)
TextLen(k, n) == LET w == Rnd(Key(k, 1), 16) IN
  IF w = 0 THEN 0 ELSE IF w = 1 THEN 30 + Rnd(Key(k, 2), 40) ELSE IF w = 2 THEN 120 + Rnd(Key(k, 2), 150) ELSE Rnd(Key(k, 2), n)

(* bytes of one structure; the n-th flag byte is forced to x if force = <<n, x>> *)
GenField(st, f, key, force) ==
  LET k == Key(key, st.i) IN
  IF f.c # "" /\ (IF f.c = "" THEN FALSE ELSE st.v[f.c] = 0) THEN [st EXCEPT !.i = @ + 1]
  ELSE
  LET fb == st.fb + (IF f.k = "bits8" THEN 1 ELSE 0)
      x == IF f.k = "bits8" /\ force[1] = fb THEN force[2] ELSE RndByte(k)
      d == CASE f.k = "u8" -> NBytes(k, 1)
             [] f.k = "u16" -> NBytes(k, 2) [] f.k = "u24" -> NBytes(k, 3) [] f.k = "u32" -> NBytes(k, 4)
             [] f.k = "fix" -> TBytes(k, f.w)
             [] f.k = "rest" -> TBytes(k, TextLen(Key(k, 77), 24))
             [] f.k = "zstr" -> NonZero(TBytes(k, TextLen(Key(k, 77), 12))) \o << 0 >>
             [] f.k = "zopt" -> IF Rnd(Key(k, 78), 2) = 0 THEN << >>
                                ELSE NonZero(TBytes(k, 1 + TextLen(Key(k, 77), 12))) \o << 0 >>
             [] f.k = "bits8" -> << x >>
             [] f.k = "bits16" -> RBytes(k, 2)
  IN [i |-> st.i + 1, fb |-> fb, b |-> st.b \o d,
      v |-> IF f.k = "bits8" THEN st.v @@ BitVals(f.ns, Len(f.ns), x, << >>) ELSE st.v]
GenBytes(L, key, force) ==
  FoldLeft(LAMBDA st, f : GenField(st, f, key, force), [i |-> 1, fb |-> 0, b |-> << >>, v |-> << >>], L).b

NestedMsg(k) == << 8, Rnd(Key(k, 1), 128) >> \o (IF Rnd(Key(k, 2), 2) = 0 THEN << >> ELSE << 16, Rnd(Key(k, 3), 2) >>)
(* EGTS-plus: nested sensors whose fields 1 and 2 are plain numbers *)
PlusSens == << 8, 9, 10, 11, 12 >>
GenPlus(key) ==
  LET n == Rnd(Key(key, 5), 3) IN
  PlusWrite([RN |-> NBytes(Key(key, 1), 4), TS |-> NBytes(Key(key, 2), 4), SF |-> NBytes(Key(key, 3), 4),
             RR |-> [i \in 1..Rnd(Key(key, 4), 3) |-> Rnd(Key(key, 10 + i), 40)],
             SN |-> [i \in 1..n |-> [f |-> PlusSens[i + Rnd(Key(key, 6), 3)], b |-> NestedMsg(Key(key, 20 + i))]]])

(* flag 0 means: nothing forced *)
NoForce == << 0, 0 >>
FlagFields == << <<1, 1>>, <<16, 1>>, <<17, 1>>, <<18, 1>>, <<18, 2>>, <<19, 1>>, <<21, 1>>, <<27, 1>> >>
SubBytes(t, key, force) == IF t = 15 THEN GenPlus(key) ELSE GenBytes(Layouts[t], key, force)
(* the value those bytes mean, tenths of km/h and reserved bits dropped: what can be encoded *)
SubVal(t, key) == LET r == ReadSub(t, SubBytes(t, key, NoForce)) IN Unview(t, r.v)

SubList == << 0, 1, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27 >>
GenSub(key) == LET t == Pick(Key(key, 1), SubList) IN [t |-> t, v |-> SubVal(t, Key(key, 2))]
RecHeader(key, flags) ==
  LET b == << 0, 0 >> \o NBytes(Key(key, 1), 2) \o << flags >> \o NBytes(Key(key, 3), 4)
           \o NBytes(Key(key, 4), 4) \o NBytes(Key(key, 5), 4) \o NBytes(Key(key, 6), 1) \o NBytes(Key(key, 7), 1)
  IN Without(Read(RecordL, b, 1).v, {"RL"})
GenRecord(key, n) ==
  [h |-> RecHeader(Key(key, 1), RndByte(Key(key, 2))), subs |-> [i \in 1..n |-> GenSub(Key(key, 10 + i))]]
GenRecords(key, m, n) == [i \in 1..m |-> GenRecord(Key(key, i), Rnd(Key(key, 50 + i), n + 1))]
PkHeader(key, pt, flags) ==
  LET b == << 1 >> \o NBytes(Key(key, 1), 1) \o << flags, 11 >> \o NBytes(Key(key, 2), 1) \o << 0, 0 >>
           \o NBytes(Key(key, 3), 2) \o << pt >> \o NBytes(Key(key, 4), 2) \o NBytes(Key(key, 5), 2) \o NBytes(Key(key, 6), 2)
  IN Without(Read(HeaderL, b, 1).v, {"HL", "FDL", "HCS"})
BodyOf(pt, rpid, pr, recs) ==
  IF pt = 0 THEN LE16(rpid) \o << pr >> \o WriteRecords(recs) ELSE WriteRecords(recs)

(* JSON-friendly forms for the encoding vectors *)
RecsForDriver(recs) ==
  [i \in 1..Len(recs) |-> [h |-> recs[i].h,
     subs |-> [j \in 1..Len(recs[i].subs) |-> [t |-> recs[i].subs[j].t, v |-> View(recs[i].subs[j].t, recs[i].subs[j].v)]]]]
(* what decoding the encoding of recs must show *)
RecsShown(recs) ==
  [i \in 1..Len(recs) |->
     LET subs == recs[i].subs IN
     recs[i].h @@ [RL |-> Len(WriteSubs(subs)),
       RD |-> [j \in 1..Len(subs) |-> [SRT |-> subs[j].t, SRL |-> Len(WriteSub(subs[j].t, subs[j].v)),
                                       SRD |-> View(subs[j].t, subs[j].v)]]]]
=============================================================================
