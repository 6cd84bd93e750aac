----------------------------- MODULE VorbisAudio -----------------------------
(* Audio packets (Vorbis I, 4.3): which symbols a packet holds. Decoding      *)
(* stops at the first point where the packet ends ("eop"), where its bits     *)
(* select nothing ("under") or contradict the setup. Symbols are numbers:     *)
(* raw fields in raw, codebook entries as << book, entry >> pairs flattened   *)
(* in ent; both in stream order.                                              *)
EXTENDS VorbisSetup

\* rb: bits of the packet that are not codewords
AS(p) == [p |-> p, e |-> "", raw |-> << >>, ent |-> << >>, v |-> 0, rb |-> p]

\* a raw field of w bits
Raw(B, n, s, w) ==
    IF s.e # "" THEN s
    ELSE IF s.p + w > n THEN [s EXCEPT !.e = "eop"]
    ELSE [s EXCEPT !.p = @ + w, !.raw = Append(@, RU(B, s.p, w)), !.v = RU(B, s.p, w), !.rb = @ + w]

\* an entry of book b (from 0)
Ent(B, n, s, books, b) ==
    IF s.e # "" THEN s
    ELSE LET d == DecodeEntry(B, n, books[b + 1], s.p)
         IN  IF d[1] = EOP THEN [s EXCEPT !.e = "eop"]
             ELSE IF d[1] = UNDER THEN [s EXCEPT !.e = Tell("under", << b >>)]
             ELSE [s EXCEPT !.p = d[2], !.v = d[1], !.ent = @ \o << b, d[1] >>]

RangeBits == << 8, 7, 7, 6 >>

\* Floor 1 (7.2.3)
FloorPartition(B, n, s, books, c) ==
    LET s1 == IF c.sub > 0 THEN Ent(B, n, s, books, c.master) ELSE [s EXCEPT !.v = 0]
        cv == s1.v
    IN  IF s1.e # "" THEN s1
        ELSE FoldLeft(LAMBDA t, j :
                 LET bk == c.books[((cv \div Pow2(Min2(c.sub * (j - 1), 30))) % Pow2(c.sub)) + 1]
                 IN  IF bk < 0 THEN t ELSE Ent(B, n, t, books, bk),
               s1, Upto(c.dim))

FloorVec(B, n, s, books, fl) ==
    LET s1 == Raw(B, n, s, 1)
    IN  IF s1.e # "" \/ s1.v = 0 THEN s1
        ELSE LET w  == RangeBits[fl.mult]
                 s2 == Raw(B, n, Raw(B, n, s1, w), w)
                 s3 == FoldLeft(LAMBDA t, c : IF t.e # "" THEN t
                                              ELSE FloorPartition(B, n, t, books, fl.classes[c + 1]),
                                s2, fl.parts)
             IN  [s3 EXCEPT !.v = 1]

\* Residue (8.6.2). masks[j] is TRUE if vector j is not decoded.
\* The classifications of one vector given by a class codeword: dim digits in base ncls.
\* (24 digits are enough for any entry number)
RECURSIVE Digits(_, _, _)
Digits(v, base, k) == IF k = 0 THEN << >>
                      ELSE IF k > 24 THEN [i \in 1 .. k - 24 |-> 0] \o Digits(v, base, 24)
                      ELSE Append(Digits(v \div base, base, k - 1), v % base)

ResidueVecs(B, n, s, books, r, masks0, half) ==
    LET inter == r.type = 2
        masks == IF inter THEN << FALSE >> ELSE masks0
        size  == IF inter THEN half * Len(masks0) ELSE half
        begin == Min2(r.begin, size)
        end   == Min2(r.end, size)
        parts == (end - begin) \div r.psize
        dim   == books[r.classbook + 1].dim
        nvec  == Len(masks)
        \* class words that classify nothing are read until the packet ends
        groups == IF dim # 0 THEN (parts + dim - 1) \div dim
                  ELSE IF \E j \in 1 .. nvec : ~masks[j] THEN n + 1 ELSE 0
        \* read the class words of one group for every vector: t.cls[j] grows by dim digits
        ReadClasses(t) ==
            FoldLeft(LAMBDA u, j :
                IF u.s.e # "" \/ masks[j] THEN u
                ELSE LET s1 == Ent(B, n, u.s, books, r.classbook)
                     IN  IF s1.e # "" THEN [u EXCEPT !.s = s1]
                         ELSE [u EXCEPT !.s = s1,
                                        !.cls = [@ EXCEPT ![j] = @ \o Digits(s1.v, r.ncls, dim)]],
                t, Upto(nvec))
        OneVector(t, pass, part, j) ==
            LET bk == r.books[t.cls[j][part] + 1][pass]
                b  == books[bk + 1]
            IN  IF bk < 0 THEN t
                ELSE IF b.lk = 0 THEN [t EXCEPT !.s.e = Tell("scalar", << bk >>)]
                ELSE IF b.dim = 0 \/ r.psize % b.dim # 0 THEN [t EXCEPT !.s.e = Tell("dim", << bk, b.dim, r.psize >>)]
                ELSE [t EXCEPT !.s = FoldLeft(LAMBDA u, k : Ent(B, n, u, books, bk),
                                              t.s, Upto(r.psize \div b.dim))]
        OnePartition(t, pass, part) ==
            IF t.s.e # "" THEN t
            ELSE FoldLeft(LAMBDA u, j : IF u.s.e # "" \/ masks[j] THEN u
                                        ELSE OneVector(u, pass, part, j),
                          t, Upto(nvec))
        OneGroup(t, pass, g) ==
            IF t.s.e # "" THEN t
            ELSE LET t1 == IF pass = 1 THEN ReadClasses(t) ELSE t
                     k  == Min2(dim, parts - dim * (g - 1))
                 IN  FoldLeft(LAMBDA u, i : OnePartition(u, pass, dim * (g - 1) + i), t1, Upto(k))
        OnePass(t, pass) == FoldLeft(LAMBDA u, g : OneGroup(u, pass, g), t, Upto(groups))
        t0 == [s |-> s, cls |-> TLCEval([j \in 1 .. nvec |-> << >>])]
    IN  IF end = begin \/ parts = 0 THEN s
        ELSE FoldLeft(LAMBDA t, pass : OnePass(t, pass), t0, Upto(8)).s

\* Everything after the mode and window flags (4.3.2 to 4.3.4)
Spectrum(B, n, s, S, mp, bs, ch) ==
    LET fl == FoldLeft(LAMBDA t, c :
                 IF t.s.e # "" THEN t
                 ELSE LET s1 == FloorVec(B, n, t.s, S.books,
                                         S.floors[mp.submaps[mp.mux[c] + 1][1] + 1])
                      IN  [s |-> s1, quiet |-> Append(t.quiet, s1.v = 0)],
               [s |-> s, quiet |-> << >>], Upto(ch))
        \* a coupled pair is decoded if either is
        quiet == FoldLeft(LAMBDA q, c :
                    LET both == q[c[1] + 1] /\ q[c[2] + 1]
                    IN  [q EXCEPT ![c[1] + 1] = both, ![c[2] + 1] = both],
                  fl.quiet, mp.coupling)
    IN  IF fl.s.e # "" THEN fl.s
        ELSE FoldLeft(LAMBDA t, i :
                 LET mine  == SelectSeq(Upto(ch), LAMBDA c : mp.mux[c] = i - 1)
                     masks == [j \in 1 .. Len(mine) |-> quiet[mine[j]]]
                 IN  IF t.e # "" \/ \A j \in 1 .. Len(mine) : masks[j] THEN t
                     ELSE ResidueVecs(B, n, t, S.books, S.residues[mp.submaps[i][2] + 1],
                                      masks, bs \div 2),
               fl.s, Upto(Len(mp.submaps)))

\* The whole packet. status:
\*   "drop"   it ends before its block size and windowing are known: decoders skip it
\*   "type"   not an audio packet       "mode"  undefined mode
\*   "ok"     every symbol present      "eop"   it ends within the symbols
\*   "bad"                              the symbols contradict the setup
\* fault: what no decoder recovers from ("" if nothing)
Audio(B, S, id) ==
    LET n   == NBits(B)
        nm  == Len(S.modes)
        w   == ILog(nm - 1)
        s1  == Raw(B, n, AS(1), w)
        md  == S.modes[s1.v + 1]
        s2  == IF md.big = 1 THEN Raw(B, n, Raw(B, n, s1, 1), 1) ELSE s1
        bs  == id.bs[md.big + 1]
        fin == Spectrum(B, n, s2, S, S.mappings[md.mapping + 1], bs, id.ch)
        None(st) == [status |-> st, bs |-> -1, raw |-> << >>, ent |-> << >>, p |-> 0, rb |-> 0,
                     fault |-> ""]
    IN  IF n < 1 THEN None("drop")
        ELSE IF Bit(B, 0) = 1 THEN [None("type") EXCEPT !.fault = "unexpected 0"]
        ELSE IF s1.e # "" THEN None("drop")
        ELSE IF s1.v >= nm THEN [None("mode") EXCEPT !.fault = Tell("mode", << s1.v >>)]
        ELSE IF s2.e # "" THEN None("drop")
        ELSE [status |-> IF fin.e = "" THEN "ok" ELSE IF fin.e = "eop" THEN "eop" ELSE "bad",
              fault |-> IF fin.e = "eop" THEN "" ELSE fin.e,
              bs |-> bs, raw |-> fin.raw, ent |-> fin.ent, p |-> fin.p, rb |-> fin.rb]
===============================================================================
