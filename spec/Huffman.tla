------------------------------- MODULE Huffman -------------------------------
(* Codebooks' entropy code (Vorbis I, 3.2.1). Entries, in order, take the     *)
(* lowest-valued free codeword of their length, i.e. the leftmost free node   *)
(* at that depth of the tree. Seen from the root, the free subtrees have      *)
(* strictly decreasing depth from left to right, so there is at most one at   *)
(* each depth and the leftmost usable one for length L is the deepest that is *)
(* not deeper than L.                                                         *)
EXTENDS Bits

\* A tree is a flat tuple T: children of node k are T[2k-1] (bit 0) and T[2k]
\* (bit 1); 0 is no child, c > 0 node c, c < 0 the leaf of entry -c-1.
\* st.free[d+1] is the slot (an index of T) of the free subtree at depth d,
\* 0 if none; depth 0 uses the pseudo slot -1.

HNewNode(st) == [st EXCEPT !.T = @ \o << 0, 0 >>]

\* Hang what is at slot: a child pointer.
HSet(T, slot, v) == IF slot = -1 THEN T ELSE [T EXCEPT ![slot] = v]

\* Extend the free subtree at depth d (slot s) down to depth L along 0-branches.
RECURSIVE HDescend(_, _, _, _)
HDescend(st, s, d, L) ==
    IF d = L THEN [st EXCEPT !.cur = s]
    ELSE LET node == (Len(st.T) \div 2) + 1
             T2   == HSet(st.T, s, node) \o << 0, 0 >>
         IN  HDescend([st EXCEPT !.T = T2,
                                 !.free = [@ EXCEPT ![d + 2] = 2 * node]],
                      2 * node - 1, d + 1, L)

RECURSIVE HDeepest(_, _)
HDeepest(free, d) == IF d < 0 THEN -1
                     ELSE IF free[d + 1] # 0 THEN d ELSE HDeepest(free, d - 1)

HAdd(st, entry, L) ==
    IF st.over \/ L = 0 THEN st
    ELSE LET d == HDeepest(st.free, L)
         IN  IF d < 0 THEN [st EXCEPT !.over = TRUE]
             ELSE LET s  == st.free[d + 1]
                      s1 == HDescend([st EXCEPT !.free = [@ EXCEPT ![d + 1] = 0]],
                                     s, d, L)
                  IN  [s1 EXCEPT !.T = HSet(s1.T, s1.cur, -(entry + 1))]

HEmpty == [T |-> << >>, free |-> TLCEval([i \in 1 .. 33 |-> IF i = 1 THEN -1 ELSE 0]),
           over |-> FALSE, cur |-> 0]

\* How many codewords have each length
LengthCounts(lens) ==
    FoldLeft(LAMBDA a, l : IF l = 0 THEN a ELSE [a EXCEPT ![l] = @ + 1],
             TLCEval([i \in 1 .. 32 |-> 0]), lens)
\* The sum of 2^-length over all codewords: << whole part, whether there is a fraction >>
Kraft(lens) ==
    LET cs == LengthCounts(lens)
    IN  FoldLeft(LAMBDA t, i : << (t[1] + cs[33 - i]) \div 2, t[2] \/ (t[1] + cs[33 - i]) % 2 = 1 >>,
                 << 0, FALSE >>, Upto(32))

\* The code for a list of lengths (0 = unused entry):
\*   T     the tree (not built for huge books, see BigWalk)
\*   over  more codewords than the lengths leave room for
\*   open  some bit strings decode to nothing (never so for a single entry of length 1
\*         that is the whole book, which decodes from either bit)
BIG == 4096
Code(lens) ==
    IF lens = << 1 >>
    THEN [T |-> << -1, -1 >>, over |-> FALSE, open |-> FALSE]
    ELSE LET kr == Kraft(lens)
             over == kr[1] > 1 \/ (kr[1] = 1 /\ kr[2])
         IN  [T |-> IF over \/ Len(lens) > BIG THEN << >>
                    ELSE FoldLeft(LAMBDA st, i : HAdd(st, i - 1, lens[i]), HEmpty, Upto(Len(lens))).T,
              over |-> over, open |-> kr[1] = 0]

NUsed(lens) == FoldLeft(LAMBDA a, l : IF l = 0 THEN a ELSE a + 1, 0, lens)

EOP   == -1      \* the packet ends inside a codeword
UNDER == -2      \* the bits read select no entry

\* Decode one entry number from bit p of B: << entry or EOP or UNDER, next bit >>.
RECURSIVE Walk(_, _, _, _, _)
Walk(B, n, T, node, p) ==
    IF p >= n THEN << EOP, p >>
    ELSE IF Len(T) = 0 THEN << UNDER, p + 1 >>
    ELSE LET c == T[2 * node - 1 + Bit(B, p)]
         IN  IF c < 0 THEN << -c - 1, p + 1 >>
             ELSE IF c = 0 THEN << UNDER, p + 1 >>
             ELSE Walk(B, n, T, c, p + 1)

\* The same for huge books: give out codewords, as sequences of bits, until the one at p comes up.
\* free[d+1] is the codeword prefix of the free subtree at depth d, or << 2 >> if none.
RECURSIVE BigDescend(_, _, _, _)
BigDescend(free, w, d, L) ==
    IF d = L THEN << free, w >>
    ELSE BigDescend([free EXCEPT ![d + 2] = Append(w, 1)], Append(w, 0), d + 1, L)

RECURSIVE BigDeepest(_, _)
BigDeepest(free, d) == IF free[d + 1] # << 2 >> THEN d ELSE BigDeepest(free, d - 1)

BigWalk(B, n, lens, p) ==
    LET r == FoldLeft(LAMBDA st, i :
               IF st.entry # UNDER \/ lens[i] = 0 THEN st
               ELSE LET d == BigDeepest(st.free, lens[i])
                        x == BigDescend([st.free EXCEPT ![d + 1] = << 2 >>], st.free[d + 1], d, lens[i])
                    IN  IF \A k \in 1 .. lens[i] : p + k > n \/ Bit(B, p + k - 1) = x[2][k]
                        THEN [st EXCEPT !.entry = IF p + lens[i] > n THEN EOP ELSE i - 1, !.len = lens[i]]
                        ELSE [st EXCEPT !.free = x[1]],
             [free |-> TLCEval([i \in 1 .. 33 |-> IF i = 1 THEN << >> ELSE << 2 >>]), entry |-> UNDER, len |-> 0],
             Upto(Len(lens)))
    IN  << r.entry, p + r.len >>

DecodeEntry(B, n, book, p) ==
    IF book.n > BIG THEN BigWalk(B, n, book.lens, p) ELSE Walk(B, n, book.T, 1, p)

-------------------------------------------------------------------------------
(* Optimality. The least total length of a prefix code for the positive       *)
(* frequencies fs, given in ascending order, by Huffman's two-queue merge.    *)
RECURSIVE Merge(_, _, _, _)
\* i: next unused leaf of fs; q: ascending queue of merged weights
Merge(fs, i, q, cost) ==
    LET left == (Len(fs) - i + 1) + Len(q)
    IN  IF left <= 1 THEN cost
        ELSE LET takeQ1 == i > Len(fs) \/ (Len(q) > 0 /\ Head(q) < fs[i])
                 a  == IF takeQ1 THEN Head(q) ELSE fs[i]
                 i1 == IF takeQ1 THEN i ELSE i + 1
                 q1 == IF takeQ1 THEN Tail(q) ELSE q
                 takeQ2 == i1 > Len(fs) \/ (Len(q1) > 0 /\ Head(q1) < fs[i1])
                 b  == IF takeQ2 THEN Head(q1) ELSE fs[i1]
                 i2 == IF takeQ2 THEN i1 ELSE i1 + 1
                 q2 == IF takeQ2 THEN Tail(q1) ELSE q1
             IN  Merge(fs, i2, Append(q2, a + b), cost + a + b)

OptimalCost(freqs) ==
    LET pos == SelectSeq(freqs, LAMBDA x : x > 0)
        fs  == SortSeq(pos, LAMBDA x, y : x < y)
    IN  IF Len(fs) = 1 THEN fs[1] ELSE Merge(fs, 1, << >>, 0)

\* The least depth of any such code: the same merge, of << weight, depth >> pairs, where of
\* equal weights the shallowest goes first
RECURSIVE MergeDepth(_, _, _, _)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
MergeDepth(fs, i, q, deep) ==
    LET left == (Len(fs) - i + 1) + Len(q)
    IN  IF left <= 1 THEN deep
        ELSE LET takeQ1 == i > Len(fs) \/ (Len(q) > 0 /\ Before(Head(q), fs[i]))
                 a  == IF takeQ1 THEN Head(q) ELSE fs[i]
                 i1 == IF takeQ1 THEN i ELSE i + 1
                 q1 == IF takeQ1 THEN Tail(q) ELSE q
                 takeQ2 == i1 > Len(fs) \/ (Len(q1) > 0 /\ Before(Head(q1), fs[i1]))
                 b  == IF takeQ2 THEN Head(q1) ELSE fs[i1]
                 i2 == IF takeQ2 THEN i1 ELSE i1 + 1
                 q2 == IF takeQ2 THEN Tail(q1) ELSE q1
                 d  == Max2(a[2], b[2]) + 1
             IN  MergeDepth(fs, i2, Append(q2, << a[1] + b[1], d >>), d)

OptimalDepth(freqs) ==
    LET fs == SortSeq(SelectSeq(freqs, LAMBDA x : x > 0), LAMBDA x, y : x < y)
    IN  MergeDepth([i \in 1 .. Len(fs) |-> << fs[i], 0 >>], 1, << >>, 0)

MaxOf(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)
Ordered(freqs, lens) ==
    \A i, j \in 1 .. Len(freqs) : freqs[i] > freqs[j] /\ freqs[j] > 0 => lens[i] <= lens[j]

Cost(freqs, lens) == FoldLeft(LAMBDA a, i : a + freqs[i] * lens[i], 0, Upto(Len(freqs)))
===============================================================================
