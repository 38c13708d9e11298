------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences over 0..255.  A 32-bit quantity is a         *)
(* sequence of four bytes, least significant first (TLC integers are       *)
(* 32-bit signed), smaller ones are naturals.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

Byte == 0..255
Pow2[n \in 0..30] == IF n = 0 THEN 1 ELSE 2 * Pow2[n-1]

LE16(n) == << n % 256, (n \div 256) % 256 >>
LE24(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256 >>
LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
U16(b, i) == b[i] + 256 * b[i+1]
U24x(b, i) == << b[i], b[i+1], b[i+2], 0 >>
U32x(b, i) == << b[i], b[i+1], b[i+2], b[i+3] >>
Zero4 == << 0, 0, 0, 0 >>

Sub(b, i, n) == SubSeq(b, i, i + n - 1)
Zeros(n) == [i \in 1..n |-> 0]

Bit(x, k) == (x \div Pow2[k]) % 2

(* CRC-8: polynomial 0x31, initial value 0xFF, most significant bit first. *)
RECURSIVE Crc8Bits(_, _)
Crc8Bits(c, n) ==
  IF n = 0 THEN c
  ELSE Crc8Bits(IF c >= 128 THEN ((c - 128) * 2) ^^ 49 ELSE c * 2, n - 1)
Crc8Tab == [x \in Byte |-> Crc8Bits(x, 8)]
Crc8(b) == FoldLeft(LAMBDA c, x : Crc8Tab[c ^^ x], 255, b)

(* CRC-16/CCITT: polynomial 0x1021, initial value 0xFFFF. *)
RECURSIVE Crc16Bits(_, _)
Crc16Bits(c, n) ==
  IF n = 0 THEN c
  ELSE Crc16Bits(IF c >= 32768 THEN ((c - 32768) * 2) ^^ 4129 ELSE c * 2, n - 1)
Crc16Tab == [x \in Byte |-> Crc16Bits(x * 256, 8)]
Crc16(b) ==
  FoldLeft(LAMBDA c, x : ((c % 256) * 256) ^^ Crc16Tab[(c \div 256) ^^ x], 65535, b)

(* Index of the first zero byte at or after i, 0 if there is none. *)
RECURSIVE FindZero(_, _)
FindZero(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE FindZero(b, i + 1)

(***************************************************************************)
(* A splittable pseudo random generator (Park-Miller by Schrage's method,  *)
(* which stays inside 31 bits).  Key(k, j) derives an independent key.     *)
(***************************************************************************)
PM(x) == LET y == 16807 * (x % 127773) - 2836 * (x \div 127773)
         IN IF y <= 0 THEN y + 2147483647 ELSE y
Norm(x) == 1 + (x % 2147483646)
Key(k, j) == PM(PM(Norm((k % 1073741823) + ((j * 40503) % 1073741823))))
Rnd(k, n) == (PM(PM(Norm(k))) \div 7) % n              \* 0..n-1
Pick(k, S) == S[1 + Rnd(k, Len(S))]                  \* element of a sequence
RndByte(k) == Rnd(k, 256)
(* interesting byte values come up often *)
RByte(k) == LET w == Rnd(Key(k, 1), 8) IN
            CASE w = 0 -> 0 [] w = 1 -> 255 [] w = 2 -> 128 [] w = 3 -> 1
              [] OTHER -> RndByte(Key(k, 2))
RBytes(k, n) == [i \in 1..n |-> RByte(Key(k, i))]
R16(k) == RByte(Key(k, 1)) + 256 * RByte(Key(k, 2))
=============================================================================
