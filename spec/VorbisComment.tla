---------------------------- MODULE VorbisComment ----------------------------
(* The comment header (Vorbis I, section 5) and what the vendor string and    *)
(* comment fields settings make of it.                                        *)
EXTENDS VorbisSetup

\* A little-endian 32-bit length at byte i (from 0); -1 if no packet is that long
Length32(B, i) ==
    LET hi == ByteAt(B, i + 2) + 256 * ByteAt(B, i + 3)
    IN  IF hi >= 16384 THEN -1
        ELSE ByteAt(B, i) + 256 * ByteAt(B, i + 1) + 65536 * hi

\* Where the length-prefixed string at byte i ends; -1 if the packet ends before it does
StrEnd(B, i) ==
    LET k == Length32(B, i)
    IN  IF i + 4 > Len(B) \/ k = -1 THEN -1
        ELSE IF k > Len(B) - i - 4 THEN -1
        ELSE i + 4 + k

\* As many of the next strings as are complete, at most count (-1: a count beyond what a
\* packet can hold): how many there are, and their bytes with the lengths before them.
NoStrs == [n |-> 0, packed |-> << >>]
Strs(B, start, count) ==
    LET room == (Len(B) - start) \div 4
        last == FoldLeft(LAMBDA t, k :
                    IF t.full THEN t
                    ELSE LET e == StrEnd(B, t.p)
                         IN  IF e = -1 THEN [t EXCEPT !.full = TRUE]
                             ELSE [t EXCEPT !.p = e, !.n = k],
                    [p |-> start, n |-> 0, full |-> FALSE],
                    Upto(IF count = -1 \/ count > room THEN room ELSE count))
    IN  [n |-> last.n, packed |-> SubSeq(B, start + 1, last.p)]

\* e: "" or why the packet cannot be a comment header. Truncated ones are fine:
\* vendor is << >> and has is FALSE if it is not all there.
Comment(B) ==
    LET pre == Prelude(B, 3)
        v   == StrEnd(B, 7)
    IN  IF pre \notin {"", "small"} THEN [e |-> pre, has |-> FALSE, vendor |-> << >>, fields |-> NoStrs]
        ELSE IF pre = "small" \/ v = -1
             THEN [e |-> "", has |-> FALSE, vendor |-> << >>, fields |-> NoStrs]
        ELSE [e |-> "", has |-> TRUE, vendor |-> SubSeq(B, 12, v),
              fields |-> IF v + 4 > Len(B) THEN NoStrs ELSE Strs(B, v + 4, Length32(B, v))]

SEP == << 59, 32 >>      \* "; "
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* long and short identification tags of the optimizer; tagged vendors stay as they are
Tagged(v, long, short) == EndsWith(v, SEP \o short) \/ EndsWith(v, SEP \o long)
NewVendor(c, action, long, short) ==
    IF ~c.has THEN << >>
    ELSE CASE action = "copy" -> c.vendor
           [] action = "replace" -> long
           [] action = "empty" -> << >>
           [] action = "appendTag" ->
                IF Tagged(c.vendor, long, short) THEN c.vendor ELSE c.vendor \o SEP \o long
           [] action = "appendShortTag" ->
                IF Tagged(c.vendor, long, short) THEN c.vendor ELSE c.vendor \o SEP \o short
NewFields(c, action) == IF action = "copy" THEN c.fields ELSE NoStrs

Le32(k) == << k % 256, (k \div 256) % 256, (k \div 65536) % 256, k \div 16777216 >>
Packed(s) == Le32(Len(s)) \o s

\* The one representation of a comment header without padding
CommentPacket(vendor, fields) ==
    << 3 >> \o VORBIS \o Packed(vendor) \o Le32(fields.n) \o fields.packed \o << 1 >>
===============================================================================
