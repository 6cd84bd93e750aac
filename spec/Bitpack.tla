------------------------------- MODULE Bitpack -------------------------------
(* The bit-packing crate as a state machine: a writer that appends bits and a  *)
(* reader that consumes them (Vorbis I, section 2), with the Vorbis float32    *)
(* format (9.2.2). Recorded calls must be behaviours of the machine.           *)
(* 32-bit words are << low, high >> halves; doubles are four 16-bit limbs.     *)
EXTENDS Bits, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
CONSTANTS Lo, Hi, Props

VARIABLES c,     \* case
          i,     \* calls made
          bits,  \* writer: the bits written so far
          pos,   \* reader: bits consumed
          st,    \* "run", "judge", "done"
          bad
vars == << c, i, bits, pos, st, bad >>
View == << c, i, st, bad >>

Case == Cases[c]
Op   == Case.ops[i + 1]
More == i < Len(Case.ops)
If(cond, prop, why) == IF cond THEN {<< prop, why >>} ELSE {}

Init == /\ c \in Lo .. Hi
        /\ i = 0 /\ bits = << >> /\ pos = 0 /\ st = "run" /\ bad = {}

-------------------------------------------------------------------------------
(* Words                                                                      *)
HalfBit(x, k) == (x \div P2[k + 1]) % 2
WordBit(v, k) == IF k < 16 THEN HalfBit(v[1], k) ELSE HalfBit(v[2], k - 16)
LowBits(v, w) == [k \in 1 .. w |-> WordBit(v, k - 1)]

\* The unsigned word of w <= 32 bits at bit p
Word(B, p, w) == IF w <= 16 THEN << RU(B, p, w), 0 >> ELSE << RU(B, p, 16), RU(B, p + 16, w - 16) >>
\* ... sign-extended
Signed(B, p, w) ==
    LET u == Word(B, p, w)
    IN  IF w = 0 \/ WordBit(u, w - 1) = 0 THEN u
        ELSE IF w <= 16 THEN << u[1] + (65536 - P2[w + 1]), 65535 >>
        ELSE << u[1], u[2] + (65536 - P2[w - 15]) >>

Bytes(b) == [k \in 1 .. (Len(b) + 7) \div 8 |->
               LET at(j) == IF 8 * (k - 1) + j <= Len(b) THEN b[8 * (k - 1) + j] * P2[j] ELSE 0
               IN  at(1) + at(2) + at(3) + at(4) + at(5) + at(6) + at(7) + at(8)]

-------------------------------------------------------------------------------
(* float32                                                                    *)
SignOf(v) == v[2] \div 32768
ExpOf(v)  == (v[2] \div 32) % 1024
ManOf(v)  == v[1] + 65536 * (v[2] % 32)

\* The double that equals the float32 v exactly
Unpack(v) ==
    LET m == ManOf(v)
        k == ILog(m) - 1
        e == 1023 + ExpOf(v) - 788 + k
        f == (m - P2[k + 1]) * P2[21 - k]
    IN  IF m = 0 THEN << 0, 0, 0, SignOf(v) * 32768 >>
        ELSE << 0, 0, f % 65536, SignOf(v) * 32768 + e * 16 + f \div 65536 >>

\* << odd part, exponent >> of m * 2^e
RECURSIVE Canon(_, _)
Canon(m, e) == IF m = 0 THEN << 0, 0 >> ELSE IF m % 2 = 0 THEN Canon(m \div 2, e + 1) ELSE << m, e >>

\* Does the float32 v represent the double d as well as possible?
DExp(d) == (d[4] \div 16) % 2048
DNormal(d) == DExp(d) \in 1 .. 2046
DZero(d) == d[1] = 0 /\ d[2] = 0 /\ d[3] = 0 /\ d[4] \in {0, 32768}
Nearest(d, v) ==
    LET E   == DExp(d)
        hi  == 1048576 + 65536 * (d[4] % 16) + d[3]        \* the 21 most significant bits
        s   == Max2(0, 255 - E)                            \* further bits that do not fit
        G   == Max2(0, E - 255)
        low0 == d[1] = 0 /\ d[2] = 0
        N   == IF s = 0 THEN hi + d[2] \div 32768
               ELSE IF s > 21 THEN 0
               ELSE hi \div P2[s + 1] + HalfBit(hi, s - 1)
        tie == IF s = 0 THEN d[2] = 32768 /\ d[1] = 0
               ELSE s <= 21 /\ low0 /\ hi % P2[s + 1] = P2[s]
        is(n) == Canon(ManOf(v), ExpOf(v)) = Canon(n, G)
    IN  /\ SignOf(v) = d[4] \div 32768
        /\ IF G > 1023 \/ (G = 1023 /\ N = 2097152)
           THEN ExpOf(v) = 1023                            \* too large: the scale saturates
           ELSE is(N) \/ (tie /\ is(N - 1))
Represents(d, v) == IF DNormal(d) THEN Nearest(d, v)
                    ELSE IF DZero(d) THEN SignOf(v) = d[4] \div 32768 /\ ManOf(v) = 0
                    ELSE TRUE                              \* not defined

-------------------------------------------------------------------------------
(* The writer                                                                 *)
Writing == Case.kind = "write"
\* Bytes the sink must have taken by now at the latest, were everything written
NBytes == (Len(bits) + 7) \div 8

\* Of a float only the word that is found in the output is known
WordAt(B, p) == Word(B, p, 32)

Append1(b) == bits' = bits \o b

WriteWord ==
    /\ st = "run" /\ Writing /\ More /\ Op.k \in {"u", "s", "g"} /\ Op.r = "ok"
    /\ Append1(LowBits(Op.v, Op.w))
    /\ i' = i + 1 /\ UNCHANGED << c, pos, st, bad >>

WriteFloat ==
    /\ st = "run" /\ Writing /\ More /\ Op.k = "f" /\ Op.r = "ok"
    /\ LET v == WordAt(Case.out, Len(bits))
       IN  /\ Append1(LowBits(v, 32))
           \* with a sink that failed later the word may not be there
           /\ bad' = bad \cup If(Len(bits) + 32 <= NBits(Case.out) /\ ~Represents(Op.v, v), "B03", "float written as another value")
    /\ i' = i + 1 /\ UNCHANGED << c, pos, st >>

Finalize ==
    /\ st = "run" /\ Writing /\ More /\ Op.k = "z" /\ Op.r = "ok"
    /\ bits' = bits \o [k \in 1 .. (8 - (Len(bits) % 8)) % 8 |-> 0]
    /\ bad' = bad \cup If(Case.limit < Len(bits') \div 8, "B02", "finalized although the sink is full")
    /\ i' = i + 1 /\ UNCHANGED << c, pos, st >>

Flush ==
    /\ st = "run" /\ Writing /\ More /\ Op.k = "y" /\ Op.r = "ok"
    /\ i' = i + 1 /\ UNCHANGED << c, bits, pos, st, bad >>

\* A call that fails: the sink did not take a byte of what was written up to and including this call
WriteFails ==
    /\ st = "run" /\ Writing /\ More /\ Op.r # "ok"
    /\ LET upto == Len(bits) + (IF Op.k \in {"u", "s", "g"} THEN Op.w ELSE IF Op.k = "f" THEN 32 ELSE 0)
       IN  bad' = bad \cup If(Case.limit >= (upto + 7) \div 8, "B02", "write failed: " \o Op.r)
                      \cup If(Op.r = "panic", "B01", "panic")
    /\ st' = "failed" /\ i' = i + 1 /\ UNCHANGED << c, bits, pos >>

WriteEnd ==
    /\ Writing /\ (st = "failed" \/ (st = "run" /\ ~More))
    /\ LET all == Bytes(bits)
           part == SubSeq(bits, 1, 8 * (Len(bits) \div 8))
       IN  bad' = bad \cup
             (IF st = "run"
              THEN If(Case.limit >= Len(all) /\ Case.out # all, "B01", "bits written")
                   \cup If(Case.limit < Len(all) /\ ~IsPrefix(Case.out, all), "B01", "bits written")
              \* whatever was written whole before is there
              ELSE If(SubSeq(Bytes(part), 1, Min2(Case.limit, Len(part) \div 8))
                        # SubSeq(Case.out, 1, Min2(Case.limit, Len(part) \div 8)), "B01", "bits written before a failure"))
    /\ st' = "done" /\ UNCHANGED << c, i, bits, pos >>

-------------------------------------------------------------------------------
(* The reader                                                                 *)
Reading == Case.kind = "read"
Width == CASE Op.k = "g" -> 1 [] Op.k = "f" -> 32 [] OTHER -> Op.w
Value == CASE Op.k = "u" -> Word(Case.in, pos, Op.w)
           [] Op.k = "s" -> Signed(Case.in, pos, Op.w)
           [] Op.k = "g" -> << Bit(Case.in, pos), 0 >>
           [] Op.k = "f" -> Unpack(Word(Case.in, pos, 32))
Fits  == pos + Width <= NBits(Case.in)

Read ==
    /\ st = "run" /\ Reading /\ More /\ Fits
    /\ bad' = bad \cup If(Op.r # "ok", "B02", "failed: " \o Op.r)
                  \cup If(Op.r = "ok" /\ Op.v # Value, IF Op.k = "f" THEN "B03" ELSE "B01", "value read")
    /\ pos' = pos + Width /\ i' = i + 1 /\ UNCHANGED << c, bits, st >>

\* Not enough bits. What a reader is good for afterwards is not defined
ReadPastEnd ==
    /\ st = "run" /\ Reading /\ More /\ ~Fits
    /\ bad' = bad \cup If(Op.r # "UnexpectedEof", "B02", "end of data: " \o Op.r)
    /\ st' = "done" /\ i' = i + 1 /\ UNCHANGED << c, bits, pos >>

\* No more bytes are taken from the source than hold the bits read
ReadEnd ==
    /\ st = "run" /\ Reading /\ ~More
    /\ bad' = bad \cup If(Case.left # Len(Case.in) - (pos + 7) \div 8, "B02", "bytes left in the source")
    /\ st' = "done" /\ UNCHANGED << c, i, bits, pos >>

Done == st = "done" /\ UNCHANGED vars
Next == WriteWord \/ WriteFloat \/ Finalize \/ Flush \/ WriteFails \/ WriteEnd \/ Read \/ ReadPastEnd \/ ReadEnd \/ Done
Spec == Init /\ [][Next]_vars

Holds ==
    LET mine == { b \in bad : b[1] \in Props }
    IN  mine = {} \/ (PrintT(<< "BAD", c, i, mine >>) /\ FALSE)
Short == [c |-> c, i |-> i, st |-> st, bad |-> bad]
==============================================================================
