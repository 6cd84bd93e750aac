------------------------------ MODULE OggPages -------------------------------
(* Ogg physical bitstreams (RFC 3533): bytes to pages, pages to packets.      *)
EXTENDS Bits, Int64, Bitwise

(* The checksum of 6.5: polynomial 0x04C11DB7, most significant bit first.    *)
RECURSIVE CrcBits(_, _)
CrcBits(x, n) ==
    IF n = 0 THEN x
    ELSE LET hi == (x[2] * 2 + x[1] \div 32768) % B16
             lo == (x[1] * 2) % B16
         IN  CrcBits(IF x[2] >= 32768 THEN << lo ^^ 7607, hi ^^ 1217 >> ELSE << lo, hi >>, n - 1)
CrcT == [b \in 0 .. 255 |-> CrcBits(<< 0, b * 256 >>, 8)]

CrcStep(c, b) ==
    LET t == CrcT[(c[2] \div 256) ^^ b]
    IN  << ((c[1] % 256) * 256) ^^ t[1], ((c[2] % 256) * 256 + c[1] \div 256) ^^ t[2] >>
Crc(B) == FoldLeft(CrcStep, << 0, 0 >>, B)

Word(B, i)  == ByteAt(B, i) + 256 * ByteAt(B, i + 1)
Word32(B, i) == << Word(B, i), Word(B, i + 2) >>
Word64(B, i) == << Word(B, i), Word(B, i + 2), Word(B, i + 4), Word(B, i + 6) >>

IsSync(B, i) == /\ B[i + 1] = 79 /\ B[i + 2] = 103 /\ B[i + 3] = 103 /\ B[i + 4] = 83

CapturePattern == << 79, 103, 103, 83 >>

\* The page at byte p; kind "short" if it is cut
PageAt(B, p) ==
    LET ns   == B[p + 27]
        segs == SubSeq(B, p + 28, Min2(p + 27 + ns, Len(B)))
        size == Sum(segs)
        end  == p + 27 + ns + size
        fl   == B[p + 6]
    IN  [ kind |-> IF Len(segs) < ns \/ end > Len(B) THEN "short" ELSE "page",
          at |-> p, end |-> end, version |-> B[p + 5],
          cont |-> fl % 2 = 1, bos |-> (fl \div 2) % 2 = 1, eos |-> (fl \div 4) % 2 = 1, more |-> fl >= 8,
          gran |-> Word64(B, p + 6), serial |-> Word32(B, p + 14), seq |-> Word32(B, p + 18),
          crc |-> Word32(B, p + 22), segs |-> segs, body |-> SubSeq(B, p + 28 + ns, Min2(end, Len(B))) ]

\* The pages from byte p on. The last one may be cut.
Pages(B, p) ==
    FoldLeft(LAMBDA a, q :
               IF a.done \/ q < a.next THEN a
               ELSE LET g == PageAt(B, q)
                    IN  TLCEval([out |-> Append(a.out, g), next |-> g.end, done |-> g.kind = "short"]),
             [out |-> << >>, next |-> p, done |-> FALSE],
             SelectSeq([k \in 1 .. Max2(0, Len(B) - 26) |-> k - 1], LAMBDA q : IsSync(B, q))).out

CrcOk(B, g) ==
    Crc(SubSeq(B, g.at + 1, g.at + 22) \o << 0, 0, 0, 0 >> \o SubSeq(B, g.at + 27, g.end)) = g.crc

(* Pages to packets. st remembers for each serial whether its last page ends  *)
(* inside a packet, and the part of that packet that was read.                *)
Demux0 == [out |-> << >>, st |-> << >>, err |-> ""]

\* [pk |-> the packets that a page completes, part |-> what is left, cont |-> whether a packet is]
Split(g, part) ==
    FoldLeft(LAMBDA a, s :
               LET cur == a.cur \o SubSeq(g.body, a.o + 1, a.o + s)
               IN  IF s < 255 THEN [pk |-> Append(a.pk, cur), cur |-> << >>, o |-> a.o + s, open |-> FALSE]
                   ELSE [pk |-> a.pk, cur |-> cur, o |-> a.o + s, open |-> TRUE],
             [pk |-> << >>, cur |-> part, o |-> 0, open |-> g.cont], g.segs)

DemuxPage(a, g, bad) ==
    IF a.err # "" THEN a
    ELSE IF g.version # 0 THEN [a EXCEPT !.err = "oggversion"]
    ELSE IF g.kind = "short" THEN [a EXCEPT !.err = "eof"]
    ELSE IF bad THEN [a EXCEPT !.err = "crc"]
    ELSE LET old == g.serial \in DOMAIN a.st
         IN  IF \/ old /\ (g.bos \/ g.cont # a.st[g.serial].open)
                \/ ~old /\ (~g.bos \/ g.cont)
             THEN [a EXCEPT !.err = "invalid"]
             ELSE LET s == Split(g, IF old THEN a.st[g.serial].cur ELSE << >>)
                      n == Len(s.pk)
                  IN  [ out |-> a.out \o
                          [i \in 1 .. n |-> [ serial |-> g.serial, data |-> s.pk[i],
                                              first |-> g.bos /\ i = 1, last |-> g.eos /\ i = n,
                                              lastInPage |-> i = n, gran |-> g.gran ]],
                        st |-> (g.serial :> [cur |-> s.cur, open |-> s.open]) @@ a.st,
                        err |-> "" ]

\* The packets of a physical bitstream, up to the first error
Demux(B, p, verify) ==
    LET pages == Pages(B, p)
    IN  IF pages = << >> THEN [Demux0 EXCEPT !.err = "nosync"]
        ELSE FoldLeft(LAMBDA a, g : TLCEval(DemuxPage(a, g, verify /\ g.kind = "page" /\ ~CrcOk(B, g))), Demux0, pages)
=============================================================================
