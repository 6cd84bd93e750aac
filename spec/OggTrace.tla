------------------------------- MODULE OggTrace ------------------------------
(* Are recorded runs of the real remuxer behaviours of OggRemux? The machine  *)
(* runs on the source, and its outcome is compared with every recorded one.   *)
(* Disagreements are << property, reason >> in bad.                           *)
EXTENDS OggRemux

If(cond, prop, why) == IF cond THEN {<< prop, why >>} ELSE {}

-------------------------------------------------------------------------------
(* The properties of an Ogg file on its own (O01)                             *)
WellFormed(B, P) ==
    LET ser == { P[k].serial : k \in 1 .. Len(P) }
        Of(s) == SelectSeq(P, LAMBDA g : g.serial = s)
        Open(g, was) == IF g.segs = << >> THEN was ELSE g.segs[Len(g.segs)] = 255
    IN  If(Len(B) # (IF P = << >> THEN 0 ELSE P[Len(P)].end)
           \/ \E k \in 1 .. Len(P) : P[k].at # (IF k = 1 THEN 0 ELSE P[k - 1].end) \/ P[k].kind = "short",
           "O01", "bytes outside pages")
        \cup If(\E k \in 1 .. Len(P) : P[k].version # 0 \/ P[k].more, "O01", "version or flags")
        \cup If(\E k \in 1 .. Len(P) : P[k].kind = "page" /\ ~CrcOk(B, P[k]), "O01", "checksum")
        \cup UNION { LET G == Of(s) IN
               If(\E k \in 1 .. Len(G) : G[k].seq # << (k - 1) % B16, (k - 1) \div B16 >>, "O01", "page numbers")
               \cup If(\E k \in 1 .. Len(G) : G[k].bos # (k = 1), "O01", "beginning of stream flag")
               \cup If(\E k \in 1 .. Len(G) : G[k].eos # (k = Len(G)), "O01", "end of stream flag")
               \cup If(\E k \in 1 .. Len(G) : G[k].cont # (k > 1 /\ Open(G[k - 1], FALSE)), "O01", "continued packet flag")
               \cup If(G # << >> /\ Open(G[Len(G)], FALSE), "O01", "cut packet")
               \cup If(\E k \in 1 .. Len(G) : G[k].segs = << >>, "O01", "empty page")
             : s \in ser }
        \cup If(\E k \in 1 .. Len(P) : \E m \in k + 1 .. Len(P) :
                   P[k].serial = P[m].serial /\ \E x \in k .. m : P[x].serial # P[k].serial,
                "O01", "interleaved streams")

-------------------------------------------------------------------------------
(* Against what the machine wrote                                             *)
Of(idx) == SelectSeq(exp, LAMBDA x : x.idx = idx)
NStreams == Len(str)

CeilDiv(a, b) == (a + b - 1) \div b
\* The least number of pages for packets of a stream: a page takes 255 segments
MinPages(X) ==
    LET f == FoldLeft(LAMBDA a, x :
                        LET sg == a.seg + (Len(x.data) \div 255) + 1
                        IN  IF x.end # 0 THEN [seg |-> 0, pages |-> a.pages + CeilDiv(sg, 255)]
                            ELSE [seg |-> sg, pages |-> a.pages],
                      [seg |-> 0, pages |-> 0], X)
    IN  f.pages + CeilDiv(f.seg, 255)

Completed(g) == Len(SelectSeq(g.segs, LAMBDA s : s < 255))

GranTag(x) == IF Mg.gadd # Zero64 THEN "O13"
              ELSE IF x.last THEN "O05"
              ELSE IF x.n >= 3 /\ (Case.ign \/ str[x.idx].off \notin {<< >>, Zero64}) THEN "O04" ELSE "O03"

\* A page that ends before the packet that the start offset is derived from: its granule position
\* lacks the offset (known finding)
Early(x) == /\ ~Case.ign /\ ~x.last /\ x.n >= 3 /\ str[x.idx].off \notin {<< >>, Zero64}
            /\ x.n < str[x.idx].first[2]

Stream(idx, G, pk) ==
    LET X == Of(idx)
        upto == FoldLeft(LAMBDA a, g : Append(a, (IF a = << >> THEN 0 ELSE a[Len(a)]) + Completed(g)), << >>, G)
    IN  If([k \in 1 .. Len(X) |-> X[k].data] # [k \in 1 .. Len(pk) |-> pk[k].data], "OC", "packets of stream " \o ToString(idx))
        \cup (IF Len(pk) # Len(X) THEN {} ELSE
             UNION { LET none == Completed(G[k]) = 0
                         x == X[Max2(upto[k], 1)]
                     IN  IF none THEN If(G[k].gran # MinusOne64, "O03", "granule position of a page without packet end")
                         ELSE IF Early(x)
                         THEN If(G[k].gran = x.gran, "O04KF", "no start offset yet")
                              \cup If(G[k].gran # x.gran, "O04", "granule position of packet " \o ToString(x.n))
                         ELSE If(G[k].gran # x.gran, GranTag(x), "granule position of packet " \o ToString(x.n))
                   : k \in 1 .. Len(G) }
             \cup UNION { IF X[k].end = 0 \/ (\E m \in 1 .. Len(G) : upto[m] = k /\ G[m].segs[Len(G[m].segs)] < 255) THEN {}
                          ELSE {<< IF X[k].end # X[k].code THEN "O13" ELSE IF X[k].n >= 3 THEN "O04" ELSE "O01",
                                   "no page ends with packet " \o ToString(X[k].n) >>} : k \in 1 .. Len(X) }
             \cup If(Len(G) > MinPages(X), "O02", "more pages than needed"))

\* The first serial and the increment
Inc == { k \in 1 .. 31 : k % 2 = 1 }

Serials(P) == FoldLeft(LAMBDA a, g : IF a # << >> /\ a[Len(a)] = g.serial THEN a ELSE Append(a, g.serial), << >>, P)

SerialDiffs(S) ==
    IF ~Case.rnd
    THEN If(\E k \in 1 .. Len(S) : S[k] # Add32(Add32(Case.off, << k - 1, 0 >>), Mg.sadd), "O06", "serials")
    ELSE If(~(\E n \in Inc : \A k \in 1 .. Len(S) : S[k] = Add32(S[1], Mul32(<< n, 0 >>, k - 1))), "O06", "increment of serials")
         \cup If(Cardinality({ S[k] : k \in 1 .. Len(S) }) # Len(S), "O06", "repeated serials")

OutDiffs(out) ==
    LET P == TLCEval(Pages(out, 0))
        S == Serials(P)
        d == TLCEval(Demux(out, 0, FALSE))
    IN  WellFormed(out, P)
        \cup If(Len(S) # NStreams, IF NStreams = 0 THEN "O07" ELSE "O08", "streams written")
        \cup If(d.err # "" /\ NStreams > 0, "O01", "unreadable: " \o d.err)
        \cup (IF Len(S) # NStreams \/ d.err # "" THEN {}
              ELSE SerialDiffs(S)
                   \cup UNION { Stream(k, SelectSeq(P, LAMBDA g : g.serial = S[k]),
                                          SelectSeq(d.out, LAMBDA x : x.serial = S[k])) : k \in 1 .. NStreams })

\* What the mangler was asked, with the serials filled in
LogDiffs(got, S) ==
    LET want == [k \in 1 .. Len(log) |->
                   IF log[k].m # "serial" THEN log[k]
                   ELSE [log[k] EXCEPT !.in = Sub32(S[log[k].in[1]], Mg.sadd), !.out = S[log[k].out[1]]]]
    IN  If(Len(got) # Len(want), "O13", "number of questions to the mangler")
        \cup (IF Len(got) # Len(want) \/ got = want THEN {}
              ELSE LET k == CHOOSE k \in 1 .. Len(want) : got[k] # want[k] /\ \A m \in 1 .. k - 1 : got[m] = want[m]
                   IN  {<< "O13", "question " \o ToString(k) \o ": " \o want[k].m >>})

ErrTag(e) == CASE e = "crc" -> "O10"
               [] e = "grouped" -> "O09"
               [] e = "novorbis" -> "O07"
               [] e = "sde" -> "O06"
               [] OTHER -> "O11"

Judge1(run) ==
    IF run.r = "panic" THEN {<< "V12", "panic" >>}
    ELSE IF res # ""
    THEN If(run.r # "err", ErrTag(res), "accepted: " \o res)
         \cup If(run.r # "err" /\ res \in {"hdrlen", "version", "channels", "frequency", "blocksizes"}, "O07", "left out: " \o res)
         \cup If(run.r = "err" /\ run.err # res, ErrTag(res), res \o " reported as " \o run.err)
         \cup If(run.out # << >>, "O11", "output although the source was rejected")
    ELSE IF run.r # "ok" THEN {<< "OK", "failed: " \o run.err >>, << ErrTag(run.err), "failed: " \o run.err >>}
    ELSE OutDiffs(run.out)

SameButSerial(A, B) ==
    /\ Len(A) = Len(B)
    /\ \A k \in 1 .. Len(A) : /\ A[k].gran = B[k].gran /\ A[k].segs = B[k].segs /\ A[k].body = B[k].body
                              /\ A[k].seq = B[k].seq /\ A[k].bos = B[k].bos /\ A[k].eos = B[k].eos

\* Further runs, related to the first one
Alt(a, ref) ==
    IF a.r = "panic" THEN {<< "V12", "panic" >>}
    ELSE CASE a.rel = "same" \/ (ref.r # "ok" /\ a.rel \in {"serials", "shift"}) -> If(a.r # ref.r \/ a.err # ref.err \/ a.out # ref.out, a.tag, a.what)
      [] a.rel = "fault" -> If(a.r # "err", a.tag, a.what \o ": success")
                            \cup If(a.r = "err" /\ a.err # "io", a.tag, a.what \o " reported as " \o a.err)
                            \cup If(~IsPrefix(a.out, ref.out) \/ Len(a.out) > a.n[1] + B16 * a.n[2], a.tag, a.what \o ": wrong output")
      [] a.rel = "err" -> If(a.r # "err" \/ a.err # a.want, a.tag, a.what)
      [] a.rel = "serials" ->      \* the same, with other serials
           LET A == Pages(a.out, 0)
               R == Pages(ref.out, 0)
           IN  If(a.r # "ok" \/ ~SameButSerial(A, R), a.tag, a.what)
               \cup If(a.r = "ok" /\ A # << >> /\ A[1].serial = R[1].serial, a.tag, a.what \o ": same serials")
      [] a.rel = "shift" ->        \* the same, with serials shifted by n
           LET A == Pages(a.out, 0)
               R == Pages(ref.out, 0)
           IN  If(a.r # "ok" \/ ~SameButSerial(A, R) \/ \E k \in 1 .. Min2(Len(A), Len(R)) : A[k].serial # Add32(R[k].serial, a.n),
                  a.tag, a.what)
      [] a.rel = "otherserials" -> \* another file: other serials
           LET A == Pages(a.out, 0)
               R == Pages(ref.out, 0)
           IN  If(a.r # "ok" \/ A = << >> \/ (R # << >> /\ A[1].serial = R[1].serial), a.tag, a.what)

Judge ==
    /\ ph = "judge" /\ ph' = "done"
    /\ bad' = UNION { Judge1(Case.runs[k]) : k \in 1 .. Len(Case.runs) }
              \cup UNION { Alt(Case.alts[k], Case.runs[1]) : k \in 1 .. Len(Case.alts) }
              \cup (IF Mg.on /\ res = "" /\ Case.runs[1].r = "ok" /\ Len(Serials(Pages(Case.runs[1].out, 0))) = NStreams
                    THEN LogDiffs(Case.log, Serials(Pages(Case.runs[1].out, 0))) ELSE {})
    /\ UNCHANGED << c, i, str, reading, exp, log, res >>

Done == ph = "done" /\ UNCHANGED vars
Next == Step \/ Judge \/ Done
Spec == Init /\ [][Next]_vars

CONSTANT Props
Holds ==
    LET mine == { b \in bad : b[1] \in Props }
    IN  mine = {} \/ (PrintT(<< "BAD", c, i, mine >>) /\ FALSE)
Note ==
    \/ ph # "done"
    \/ \A b \in bad : b[1] # "O04KF"
    \/ PrintT(<< "KF", c >>)
Short == [c |-> c, ph |-> ph, i |-> i, res |-> res, bad |-> bad]
===============================================================================
