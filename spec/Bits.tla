-------------------------------- MODULE Bits --------------------------------
(* Vorbis bit packing (Vorbis I, section 2): byte strings are sequences of   *)
(* 0..255; bit p of a string is bit p % 8 (least significant first) of its   *)
(* byte p \div 8. TLC integers are 32 bits wide, so 32-bit fields are pairs  *)
(* <<low 16 bits, high 16 bits>> and 64-bit ones four 16-bit limbs.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC

P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
         32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
         8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
         536870912, 1073741824 >>
Pow2(n) == P2[n + 1]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Number of bits of a byte string.
NBits(B) == 8 * Len(B)

\* Byte i (from 0). Past the end it is 0: the parsers compare positions with NBits.
ByteAt(B, i) == IF i < Len(B) THEN B[i + 1] ELSE 0

Bit(B, p) == (ByteAt(B, p \div 8) \div P2[(p % 8) + 1]) % 2

\* The unsigned integer of n <= 16 bits at bit p.
RU(B, p, n) ==
    IF n = 0 THEN 0
    ELSE LET k == p \div 8
         IN  ((ByteAt(B, k) + 256 * ByteAt(B, k + 1) + 65536 * ByteAt(B, k + 2))
                \div P2[(p % 8) + 1]) % P2[n + 1]

\* 24-bit and 32-bit fields.
RU24(B, p) == RU(B, p, 16) + 65536 * RU(B, p + 16, 8)
RU32(B, p) == << RU(B, p, 16), RU(B, p + 16, 16) >>

\* The number of bits needed to represent 0..n (Vorbis I, 9.2.1).
RECURSIVE ILog(_)
ILog(n) == IF n <= 0 THEN 0 ELSE 1 + ILog(n \div 2)

\* 1..n as a sequence, for folds.
Upto(n) == [i \in 1 .. n |-> i]

\* step(s, i) for i = 1..n, starting from s.
Iterate(n, s0, step(_, _)) == FoldLeft(step, s0, Upto(n))

Sum(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)
=============================================================================
