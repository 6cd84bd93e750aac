----------------------------- MODULE VorbisSetup -----------------------------
(* The codec setup header (Vorbis I, 4.2.4): decoding and validation.         *)
(*                                                                            *)
(* Every parser takes the packet B, its size in bits n, and a state record    *)
(* with the position p and the error e ("" while none). Reads past the end    *)
(* yield zeros; an error found when p is already past the end is the end of   *)
(* the packet ("small"), because that came first.                             *)
(* strict: reject the reserved values that lenient decoding repairs.          *)
EXTENDS Huffman

\* an error with the numbers it tells
Tell(code, args) == FoldLeft(LAMBDA s, x : s \o " " \o ToString(x), code, args)

Err(p, n, code) == IF p > n THEN "small" ELSE code
\* the first of two possible errors
Or2(e, f) == IF e # "" THEN e ELSE f
SmallIf(p, n) == IF p > n THEN "small" ELSE ""

\* r^d <= m, without ever exceeding m
RECURSIVE PowLeq(_, _, _, _)
PowLeq(r, d, m, acc) == IF d = 0 THEN acc <= m
                        ELSE acc <= m \div r /\ PowLeq(r, d - 1, m, acc * r)
RECURSIVE MaxRoot(_, _, _)
MaxRoot(r, d, m) == IF PowLeq(r + 1, d, m, 1) THEN MaxRoot(r + 1, d, m) ELSE r
\* The greatest r such that r^d <= m (9.2.3)
Lookup1Values(m, d) == IF m = 0 THEN 0 ELSE IF d = 1 THEN m ELSE IF d > 24 THEN 1
                       ELSE MaxRoot(1, d, m)

\* r^d, or cap + 1 if it is more than cap
RECURSIVE PowCap(_, _, _, _)
PowCap(r, d, cap, acc) == IF d = 0 THEN acc
                          ELSE IF acc > cap \div r THEN cap + 1
                          ELSE PowCap(r, d - 1, cap, acc * r)
\* the power of a base > 1 passes any 24-bit bound after 24 steps
ClassWords(c, d, cap) == IF c = 1 THEN 1 ELSE PowCap(c, Min2(d, 25), cap, 1)

-------------------------------------------------------------------------------
(* Codebooks (3.2.1) *)

RECURSIVE OrderedLens(_, _, _, _, _, _)
OrderedLens(B, n, p, len, count, acc) ==
    IF Len(acc) >= count THEN [p |-> p, e |-> "", lens |-> acc]
    ELSE IF len > 32 THEN [p |-> p, e |-> Err(p, n, "cwlen"), lens |-> acc]
    ELSE LET w == ILog(count - Len(acc))
             k == IF w <= 16 THEN RU(B, p, w) ELSE RU(B, p, 16) + 65536 * RU(B, p + 16, w - 16)
         IN  IF p + w > n THEN [p |-> p + w, e |-> "small", lens |-> acc]
             ELSE IF Len(acc) + k > count
                  THEN [p |-> p + w, e |-> Err(p + w, n, "value"), lens |-> acc]
             ELSE OrderedLens(B, n, p + w, len + 1, count, acc \o [i \in 1 .. k |-> len])

SparseSome(B, n, p, count) ==
    Iterate(count, [p |-> p, e |-> "", lens |-> << >>],
      LAMBDA s, i :
        IF s.e # "" THEN s
        ELSE IF s.p >= n THEN [s EXCEPT !.e = "small"]
        ELSE IF Bit(B, s.p) = 0 THEN [s EXCEPT !.p = @ + 1, !.lens = Append(@, 0)]
        ELSE IF s.p + 6 > n THEN [s EXCEPT !.e = "small"]
        ELSE [s EXCEPT !.p = @ + 6, !.lens = Append(@, RU(B, s.p + 1, 5) + 1)])

\* in chunks, so that long lists are not copied once per element
SparseLens(B, n, p, count) ==
    IF p + count > n THEN [p |-> p + count, e |-> "small", lens |-> << >>]
    ELSE Iterate((count + 255) \div 256, [p |-> p, e |-> "", lens |-> << >>],
           LAMBDA s, i :
             IF s.e # "" THEN s
             ELSE LET r == SparseSome(B, n, s.p, Min2(256, count - 256 * (i - 1)))
                  IN  [p |-> r.p, e |-> r.e, lens |-> s.lens \o r.lens])

DenseLens(B, n, p, count) ==
    IF p + 5 * count > n THEN [p |-> p + 5 * count, e |-> "small", lens |-> << >>]
    ELSE [p |-> p + 5 * count, e |-> "",
          lens |-> TLCEval([i \in 1 .. count |-> RU(B, p + 5 * (i - 1), 5) + 1])]

BadBook(p, e) == [p |-> p, e |-> e]

Book(B, n, p0, strict, number) ==
    LET sync    == RU24(B, p0)
        dim     == RU(B, p0 + 24, 16)
        count   == RU24(B, p0 + 40)
        ordered == Bit(B, p0 + 64) = 1
        L == IF ordered THEN OrderedLens(B, n, p0 + 70, RU(B, p0 + 65, 5) + 1, count, << >>)
             ELSE IF Bit(B, p0 + 65) = 1 THEN SparseLens(B, n, p0 + 66, count)
             ELSE DenseLens(B, n, p0 + 66, count)
        p1 == L.p
        lk == RU(B, p1, 4)
        cnt == IF lk = 1 THEN (IF dim = 0 THEN -1 ELSE Lookup1Values(count, dim))
               ELSE IF dim > 0 /\ count > 33554431 \div dim THEN -1
               ELSE count * dim          \* -1: more than any packet can hold
        vb == RU(B, p1 + 68, 4) + 1
        p2 == p1 + 73
        hasLk == lk \in {1, 2}
        p3 == IF ~hasLk THEN p1 + 4 ELSE p2 + vb * Max2(cnt, 0)
    IN  IF p0 + 24 > n THEN BadBook(p0 + 24, "small")
        ELSE IF strict /\ sync # 5653314 THEN BadBook(p0 + 24, "pattern")
        ELSE IF p0 + 65 > n THEN BadBook(p0 + 65, "small")
        ELSE IF L.e # "" THEN BadBook(L.p, L.e)
        ELSE IF p1 > n \/ p1 + 4 > n THEN BadBook(p1 + 4, "small")
        ELSE IF lk > 2 THEN BadBook(p1 + 4, Tell("lookup", << lk >>))
        ELSE IF hasLk /\ (p2 > n \/ cnt = -1 \/ cnt > n - p2 \/ p3 > n)
             THEN BadBook(p2, "small")
        ELSE LET code == Code(L.lens)
             IN  IF code.over THEN BadBook(p3, Tell("over", << number >>))
                 ELSE [p |-> p3, e |-> "", sync |-> sync, dim |-> dim, n |-> count,
                       lens |-> L.lens, T |-> code.T, open |-> code.open,
                       lk |-> lk,
                       fmt |-> IF ordered THEN "ordered"
                               ELSE IF Bit(B, p0 + 65) = 1 THEN "sparse" ELSE "dense",
                       min |-> IF hasLk THEN RU32(B, p1 + 4) ELSE << 0, 0 >>,
                       delta |-> IF hasLk THEN RU32(B, p1 + 36) ELSE << 0, 0 >>,
                       vb |-> IF hasLk THEN vb ELSE 0,
                       seq |-> IF hasLk THEN Bit(B, p1 + 72) ELSE 0,
                       mults |-> IF hasLk
                                 THEN TLCEval([i \in 1 .. cnt |-> RU(B, p2 + vb * (i - 1), vb)])
                                 ELSE << >>]

\* count items parsed one after the other by parse(position, index)
ParseMany(count, p, n, parse(_, _)) ==
    Iterate(count, [p |-> p, e |-> SmallIf(p, n), items |-> << >>],
      LAMBDA s, i :
        IF s.e # "" THEN s
        ELSE LET r == parse(s.p, i)
             IN  IF r.e # "" THEN [s EXCEPT !.p = r.p, !.e = r.e]
                 ELSE [s EXCEPT !.p = r.p, !.items = Append(@, r)])

-------------------------------------------------------------------------------
(* Floors (7.2.2); type 0 is not supported *)

FloorClass(B, n, p, nbooks) ==
    LET dim    == RU(B, p, 3) + 1
        sub    == RU(B, p + 3, 2)
        master == IF sub > 0 THEN RU(B, p + 5, 8) ELSE -1
        p1     == IF sub > 0 THEN p + 13 ELSE p + 5
        books  == TLCEval([i \in 1 .. Pow2(sub) |-> RU(B, p1 + 8 * (i - 1), 8) - 1])
        bad    == { i \in 1 .. Pow2(sub) : p1 + 8 * i <= n /\ books[i] >= nbooks }
        first  == CHOOSE i \in bad : \A j \in bad : i <= j
        p2     == p1 + 8 * Pow2(sub)
    IN  [p |-> p2, dim |-> dim, sub |-> sub, master |-> master, books |-> books,
         e |-> IF p1 > n THEN "small"
               ELSE IF sub > 0 /\ master >= nbooks THEN Tell("book", << master >>)
               ELSE IF bad # {} THEN Tell("book", << books[first] >>)
               ELSE IF p2 > n THEN "small" ELSE ""]

Distinct(s) == Len(s) = 0 \/ \A i \in 1 .. Len(s) : \A j \in i + 1 .. Len(s) : s[i] # s[j]

Floor(B, n, p, nbooks, number) ==
    LET type  == RU(B, p, 16)
        parts == RU(B, p + 16, 5)
        pl    == TLCEval([i \in 1 .. parts |-> RU(B, p + 21 + 4 * (i - 1), 4)])
        p1    == p + 21 + 4 * parts
        ncls  == FoldLeft(LAMBDA a, c : Max2(a, c + 1), 0, pl)
        cls   == ParseMany(ncls, p1, n, LAMBDA q, i : FloorClass(B, n, q, nbooks))
        p2    == cls.p
        mult  == RU(B, p2, 2) + 1
        rb    == RU(B, p2 + 2, 4)
        nx    == FoldLeft(LAMBDA a, c : a + cls.items[c + 1].dim, 0, pl)
        xs    == TLCEval([i \in 1 .. nx |-> RU(B, p2 + 6 + rb * (i - 1), rb)])
        \* first repetition, if it comes before the end of the packet
        reps  == { i \in 2 .. nx : p2 + 6 + rb * i <= n /\ \E j \in 1 .. i - 1 : xs[j] = xs[i] }
        p3    == p2 + 6 + rb * nx
    IN  IF p + 16 > n THEN BadBook(p + 16, "small")
        ELSE IF type # 1 THEN BadBook(p + 16, Tell("floortype", << type >>))
        ELSE IF p1 > n THEN BadBook(p1, "small")
        ELSE IF cls.e # "" THEN BadBook(cls.p, cls.e)
        ELSE IF p2 + 6 > n THEN BadBook(p2 + 6, "small")
        ELSE IF reps # {} THEN BadBook(p3, Tell("xrep", << number >>))
        ELSE IF p3 > n THEN BadBook(p3, "small")
        ELSE IF nx > 65 THEN BadBook(p3, Tell("xmany", << number >>))
        ELSE [p |-> p3, e |-> "", parts |-> pl,
              classes |-> [i \in 1 .. ncls |->
                            [dim |-> cls.items[i].dim, sub |-> cls.items[i].sub,
                             master |-> cls.items[i].master, books |-> cls.items[i].books]],
              mult |-> mult, rb |-> rb, xs |-> xs]

-------------------------------------------------------------------------------
(* Residues (8.6.1) *)

CascadeBits(B, n, p) ==
    LET hi == Bit(B, p + 3) = 1
    IN  [p |-> IF hi THEN p + 9 ELSE p + 4,
         e |-> SmallIf(IF hi THEN p + 9 ELSE p + 4, n),
         v |-> RU(B, p, 3) + (IF hi THEN 8 * RU(B, p + 4, 5) ELSE 0)]

\* the eight per-pass book numbers (-1: none) of a class with this cascade
ClassBooks(B, n, p, cascade, nbooks) ==
    Iterate(8, [p |-> p, e |-> "", books |-> << >>],
      LAMBDA s, j :
        IF s.e # "" THEN s
        ELSE IF (cascade \div Pow2(j - 1)) % 2 = 0 THEN [s EXCEPT !.books = Append(@, -1)]
        ELSE LET b == RU(B, s.p, 8)
             IN  [s EXCEPT !.p = @ + 8, !.books = Append(@, b),
                           !.e = IF s.p + 8 > n THEN "small"
                                 ELSE IF b >= nbooks THEN Tell("book", << b >>) ELSE ""])

Residue(B, n, p, books) ==
    LET type  == RU(B, p, 16)
        begin == RU24(B, p + 16)
        end   == RU24(B, p + 40)
        psize == RU24(B, p + 64) + 1
        ncls  == RU(B, p + 88, 6) + 1
        cb    == RU(B, p + 94, 8)
        p1    == p + 102
        cas   == ParseMany(ncls, p1, n, LAMBDA q, i : CascadeBits(B, n, q))
        bks   == ParseMany(ncls, cas.p, n,
                           LAMBDA q, i : ClassBooks(B, n, q, cas.items[i].v, Len(books)))
    IN  IF p + 16 > n THEN BadBook(p + 16, "small")
        ELSE IF type > 2 THEN BadBook(p + 16, Tell("restype", << type >>))
        ELSE IF p1 > n THEN BadBook(p1, "small")
        ELSE IF cb >= Len(books) THEN BadBook(p1, Tell("book", << cb >>))
        ELSE IF ClassWords(ncls, books[cb + 1].dim, books[cb + 1].n) > books[cb + 1].n
             THEN BadBook(p1, Tell("book", << cb >>))
        ELSE IF cas.e # "" THEN BadBook(cas.p, cas.e)
        ELSE IF bks.e # "" THEN BadBook(bks.p, bks.e)
        ELSE [p |-> bks.p, e |-> "", type |-> type, begin |-> begin, end |-> Max2(begin, end),
              psize |-> psize, ncls |-> ncls, classbook |-> cb,
              books |-> [i \in 1 .. ncls |-> bks.items[i].books]]

-------------------------------------------------------------------------------
(* Mappings and modes (4.2.4) *)

Coupling(B, n, p, w, ch) ==
    LET m == RU(B, p, w)
        a == RU(B, p + w, w)
    IN  [p |-> p + 2 * w, m |-> m, a |-> a,
         e |-> IF p + 2 * w > n THEN "small"
               ELSE IF m = a \/ m >= ch \/ a >= ch THEN Tell("chanmap", << m, a, ch >>) ELSE ""]

Mapping(B, n, p, ch, nfloors, nresidues, strict) ==
    LET type  == RU(B, p, 16)
        many  == Bit(B, p + 16) = 1
        nsub  == IF many THEN RU(B, p + 17, 4) + 1 ELSE 1
        p1    == IF many THEN p + 21 ELSE p + 17
        coup  == Bit(B, p1) = 1
        steps == IF coup THEN RU(B, p1 + 1, 8) + 1 ELSE 0
        p2    == IF coup THEN p1 + 9 ELSE p1 + 1
        cps   == ParseMany(steps, p2, n, LAMBDA q, i : Coupling(B, n, q, ILog(ch - 1), ch))
        p3    == cps.p
        res   == RU(B, p3, 2)
        p4    == p3 + 2
        mux   == ParseMany(IF nsub > 1 THEN ch ELSE 0, p4, n,
                   LAMBDA q, i : [p |-> q + 4, v |-> RU(B, q, 4),
                                  e |-> IF q + 4 > n THEN "small"
                                        ELSE IF RU(B, q, 4) >= nsub
                                        THEN Tell("mux", << RU(B, q, 4), nsub >>) ELSE ""])
        p5    == mux.p
        subs  == ParseMany(nsub, p5, n,
                   LAMBDA q, i : [p |-> q + 24, fl |-> RU(B, q + 8, 8), rs |-> RU(B, q + 16, 8),
                                  junk |-> RU(B, q, 8),
                                  e |-> IF q + 16 > n THEN "small"
                                        ELSE IF RU(B, q + 8, 8) >= nfloors THEN Tell("floor", << RU(B, q + 8, 8) >>)
                                        ELSE IF q + 24 > n THEN "small"
                                        ELSE IF RU(B, q + 16, 8) >= nresidues
                                        THEN Tell("residue", << RU(B, q + 16, 8) >>)
                                        ELSE ""])
    IN  IF p + 16 > n THEN BadBook(p + 16, "small")
        ELSE IF type # 0 THEN BadBook(p + 16, Tell("maptype", << type >>))
        ELSE IF p2 > n THEN BadBook(p2, "small")
        ELSE IF cps.e # "" THEN BadBook(cps.p, cps.e)
        ELSE IF p4 > n THEN BadBook(p4, "small")
        ELSE IF strict /\ res # 0 THEN BadBook(p4, "pattern")
        ELSE IF mux.e # "" THEN BadBook(mux.p, mux.e)
        ELSE IF subs.e # "" THEN BadBook(subs.p, subs.e)
        ELSE [p |-> subs.p, e |-> "",
              coupling |-> [i \in 1 .. steps |-> << cps.items[i].m, cps.items[i].a >>],
              mux |-> [i \in 1 .. ch |-> IF nsub > 1 THEN mux.items[i].v ELSE 0],
              submaps |-> [i \in 1 .. nsub |-> << subs.items[i].fl, subs.items[i].rs >>],
              clean |-> res = 0 /\ \A i \in 1 .. nsub : subs.items[i].junk = 0]

Mode(B, n, p, nmappings, strict) ==
    LET win == RU(B, p + 1, 16)
        tr  == RU(B, p + 17, 16)
        mp  == RU(B, p + 33, 8)
    IN  [p |-> p + 41, big |-> Bit(B, p), mapping |-> mp, clean |-> win = 0 /\ tr = 0,
         e |-> IF p + 17 > n THEN "small"
               ELSE IF strict /\ win # 0 THEN "pattern"
               ELSE IF p + 33 > n THEN "small"
               ELSE IF strict /\ tr # 0 THEN "pattern"
               ELSE IF p + 41 > n THEN "small"
               ELSE IF mp >= nmappings THEN Tell("mapping", << mp >>) ELSE ""]

-------------------------------------------------------------------------------
(* The common prelude of header packets (4.2.1) *)
VORBIS == << 118, 111, 114, 98, 105, 115 >>       \* "vorbis"

\* "" if B starts like a header packet of the given type
PreludeFault(B, type) ==
    IF Len(B) < 7 THEN "small"
    ELSE IF B[1] \notin {0, 1, 3, 5} THEN "type"
    ELSE IF B[1] # type THEN "unexpected"
    ELSE IF SubSeq(B, 2, 7) # VORBIS THEN "pattern"
    ELSE ""
Prelude(B, type) ==
    LET f == PreludeFault(B, type)
    IN  IF f = "type" THEN Tell(f, << B[1] >>)
        ELSE IF f = "unexpected" THEN Tell(f, << type, B[1] >>)
        ELSE f

BadSetup(e) == [e |-> e]

Setup(B, ch, strict) ==
    LET n      == NBits(B)
        pre    == Prelude(B, 5)
        nbooks == ByteAt(B, 7) + 1
        bks    == ParseMany(nbooks, 64, n, LAMBDA p, i : Book(B, n, p, strict, i - 1))
        books  == bks.items
        p1     == bks.p
        ntd    == RU(B, p1, 6) + 1
        tds    == ParseMany(ntd, p1 + 6, n,
                    LAMBDA p, i : [p |-> p + 16, v |-> RU(B, p, 16),
                                   e |-> IF p + 16 > n THEN "small"
                                         ELSE IF strict /\ RU(B, p, 16) # 0 THEN "pattern"
                                         ELSE ""])
        p2     == tds.p
        nfl    == RU(B, p2, 6) + 1
        fls    == ParseMany(nfl, p2 + 6, n, LAMBDA p, i : Floor(B, n, p, nbooks, i - 1))
        p3     == fls.p
        nrs    == RU(B, p3, 6) + 1
        rss    == ParseMany(nrs, p3 + 6, n, LAMBDA p, i : Residue(B, n, p, books))
        p4     == rss.p
        nmp    == RU(B, p4, 6) + 1
        mps    == ParseMany(nmp, p4 + 6, n,
                    LAMBDA p, i : Mapping(B, n, p, ch, nfl, nrs, strict))
        p5     == mps.p
        nmd    == RU(B, p5, 6) + 1
        mds    == ParseMany(nmd, p5 + 6, n, LAMBDA p, i : Mode(B, n, p, nmp, strict))
        p6     == mds.p
    IN  IF pre # "" THEN BadSetup(pre)
        ELSE IF Len(B) < 8 THEN BadSetup("small")
        ELSE IF bks.e # "" THEN BadSetup(bks.e)
        ELSE IF p1 + 6 > n THEN BadSetup("small")
        ELSE IF tds.e # "" THEN BadSetup(tds.e)
        ELSE IF p2 + 6 > n THEN BadSetup("small")
        ELSE IF fls.e # "" THEN BadSetup(fls.e)
        ELSE IF p3 + 6 > n THEN BadSetup("small")
        ELSE IF rss.e # "" THEN BadSetup(rss.e)
        ELSE IF p4 + 6 > n THEN BadSetup("small")
        ELSE IF mps.e # "" THEN BadSetup(mps.e)
        ELSE IF p5 + 6 > n THEN BadSetup("small")
        ELSE IF mds.e # "" THEN BadSetup(mds.e)
        ELSE IF strict /\ p6 + 1 > n THEN BadSetup("small")
        ELSE IF strict /\ Bit(B, p6) = 0 THEN BadSetup("pattern")
        ELSE [e |-> "", books |-> books,
              floors |-> fls.items, residues |-> rss.items, mappings |-> mps.items,
              modes |-> mds.items,
              \* where the header ends, and whether everything reserved has its only legal value
              p |-> p6 + 1,
              framing |-> p6 + 1 <= n /\ Bit(B, p6) = 1,
              clean |-> /\ \A i \in 1 .. nbooks : books[i].sync = 5653314
                        /\ ntd = 1 /\ tds.items[1].v = 0
                        /\ \A i \in 1 .. nmp : mps.items[i].clean
                        /\ \A i \in 1 .. nmd : mds.items[i].clean]

-------------------------------------------------------------------------------
(* The identification header (4.2.2) *)
Ident(B) ==
    LET pre == PreludeFault(B, 1)
        b0  == ByteAt(B, 28) % 16
        b1  == ByteAt(B, 28) \div 16
        k   == IF pre # "" THEN pre
               ELSE IF Len(B) < 30 THEN "hdrlen"
               ELSE IF SubSeq(B, 8, 11) # << 0, 0, 0, 0 >> THEN "version"
               ELSE IF B[12] = 0 THEN "channels"
               ELSE IF SubSeq(B, 13, 16) = << 0, 0, 0, 0 >> THEN "frequency"
               ELSE IF b0 < 6 \/ b0 > 13 \/ b1 < 6 \/ b1 > 13 \/ b0 > b1 THEN "blocksizes"
               ELSE ""
    IN  [kind |-> k,
         e |-> CASE pre # "" -> Prelude(B, 1)
                 [] k = "hdrlen" -> Tell(k, << 1, 30, Len(B) >>)
                 [] k = "version" -> Tell(k, SubSeq(B, 8, 11))
                 [] k \in {"channels", "frequency"} -> Tell(k, << 0 >>)
                 [] k = "blocksizes" -> Tell(k, << Pow2(b0), Pow2(b1) >>)
                 [] OTHER -> "",
         ch |-> ByteAt(B, 11), bs |-> << Pow2(b0), Pow2(b1) >>]
===============================================================================
