------------------------------ MODULE CodecModel ------------------------------
(***************************************************************************)
(* Design-level check of the wire specification itself: a medium that may  *)
(* cut a frame short or flip bits of it, explored exhaustively for one     *)
(* frame per structure and flag byte.                                      *)
(***************************************************************************)
EXTENDS EgtsGen
CONSTANTS Seed, Step, Burst

VARIABLES t, x, b, what, at

vars == << t, x, b, what, at >>
ForceOf(tt) == LET s == {i \in 1..Len(FlagFields) : FlagFields[i][1] = tt} IN
               IF s = {} THEN 1 ELSE FlagFields[CHOOSE i \in s : \A j \in s : i >= j][2]
Sub0(tt, xx) == SubBytes(tt, Key(Key(Seed, tt), xx), << ForceOf(tt), xx >>)
Val(tt, bb) == ReadSub(tt, bb)
Hdr(tt, xx) == PkHeader(Key(Seed, 5000 + xx), 1, xx)
Rec(tt, xx, v) == [h |-> RecHeader(Key(Seed, 6000 + xx), xx), subs |-> << [t |-> tt, v |-> v] >>]

Init ==
  \/ /\ t \in SubTypes /\ x \in {k \in 0..255 : k % Step = 0} /\ b = Sub0(t, x) /\ what = "sub" /\ at = 0
  \/ /\ t \in SubTypes /\ x \in {k \in 0..255 : k % (8 * Step) = 0}
     /\ b = WritePacket(Hdr(t, x), WriteRecords(<< Rec(t, x, Unview(t, Val(t, Sub0(t, x)).v)) >>))
     /\ what = "packet" /\ at = 0

Cut == /\ what \in {"sub", "packet"} /\ at = 0
       /\ \E n \in 0..(Len(b) - 1) : at' = n /\ b' = SubSeq(b, 1, n)
       /\ what' = "cut" \o what /\ UNCHANGED << t, x >>
FlipBit(bb, bit) == [bb EXCEPT ![1 + bit \div 8] = @ ^^ Pow2[bit % 8]]
Flip == /\ what = "packet"
        /\ \E n \in 0..(8 * Len(b) - 1) : \E w \in 1..Burst :
             /\ n + w <= 8 * Len(b)
             /\ at' = n
             /\ b' = IF w = 1 THEN FlipBit(b, n) ELSE FlipBit(FlipBit(b, n), n + w - 1)
        /\ what' = "flipped" /\ UNCHANGED << t, x >>
Next == Cut \/ Flip
Spec == Init /\ [][Next]_vars

(* encoding and decoding are inverse on what the views keep *)
RoundTrip ==
  what = "sub" =>
    LET r == Val(t, b) IN
    /\ r.ok
    /\ LET v == Unview(t, r.v) w == WriteSub(t, v) IN
       /\ Val(t, w).ok /\ Val(t, w).v = View(t, v)
       /\ Len(w) = Len(b) \/ t = 7
PacketOK == what = "packet" => LET r == ReadPacket(b) IN r.ok /\ FrameSize(b) = Len(b)
(* a prefix is never a complete structure, except where the tail is optional *)
CutRejected ==
  /\ what = "cutpacket" => ~ReadPacket(b).ok
  /\ (what = "cutsub" /\ t \notin {5, 7, 15}) => ~Val(t, b).ok
(* one or two flipped bits within Burst bits never yield a good packet *)
FlipRejected == what = "flipped" => ~ReadPacket(b).ok
=============================================================================
