----------------------------- MODULE VorbisTrace -----------------------------
(* The two-pass optimizer of one Vorbis stream, as a state machine, and the   *)
(* check that recorded executions of the real one are behaviours of it.       *)
(*                                                                            *)
(* One action per public call: construct with the identification header,      *)
(* analyze each packet, optimize each packet. Every action compares what the  *)
(* call returned with what this specification derives from the bytes, and     *)
(* adds << property, reason >> to bad where they disagree.                    *)
EXTENDS VorbisAudio, VorbisComment, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
CONSTANT Lo, Hi            \* the cases of this run

VARIABLES c,        \* case number
          l,        \* calls consumed
          phase,    \* what the next call must be about
          id,       \* the parsed identification header
          com,      \* the parsed comment header
          S,        \* the parsed setup header
          O,        \* the setup header that was written
          dec,      \* the analyzed audio packets, decoded
          k,        \* audio packets optimized
          bad
vars == << c, l, phase, id, com, S, O, dec, k, bad >>
View == << c, l, phase, k, bad >>

Case == Cases[c]
Op   == Case.ops[l + 1]
NoSetup == [e |-> "none"]

Init ==
    /\ c \in Lo .. Hi
    /\ l = 0 /\ phase = "new" /\ id = [e |-> "none"] /\ com = [e |-> "none"]
    /\ S = NoSetup /\ O = NoSetup /\ dec = << >> /\ k = 0 /\ bad = {}

If(cond, prop, why) == IF cond THEN {<< prop, why >>} ELSE {}

\* What any call may go wrong with: V12 panics. Rejections are V09; naming the fault is V10.
\* want: "" if the call must succeed, else the fault
Outcome(fault) ==
    LET r == Op.r
        want == IF fault = "small" THEN Tell(fault, << Len(Op.in) >>) ELSE fault
    IN  If(r = "panic", "V12", "panic")
        \cup If(want = "" /\ r = "err", "V09", "rejected: " \o Op.err)
        \cup If(want # "" /\ r \in {"ok", "pkt", "none"}, "V09", "accepted: " \o want)
        \cup If(want # "" /\ r = "err" /\ Op.err # want, "V10",
                "fault " \o want \o " reported as " \o Op.err)

\* Consume a call; stop after a failure, expected or not.
Consume(want, newbad, next) ==
    /\ l' = l + 1
    /\ bad' = bad \cup Outcome(want) \cup (IF want = "" /\ Op.r \in {"ok", "pkt", "none"} THEN newbad ELSE {})
    /\ phase' = IF want # "" \/ Op.r \in {"err", "panic"} THEN "end" ELSE next
    /\ UNCHANGED c

IsOp(kind, ph) == l < Len(Case.ops) /\ Op.k = kind /\ phase = ph

New ==
    /\ IsOp("N", "new")
    /\ id' = Ident(Op.in)
    /\ Consume(id'.e, {}, "comment")
    /\ UNCHANGED << com, S, O, dec, k >>

HeaderBs == If(Op.bs # -1, "V11", "header packet with a block size")

AnalyzeComment ==
    /\ IsOp("A", "comment")
    /\ com' = Comment(Op.in)
    /\ Consume(com'.e, HeaderBs, "setup")
    /\ UNCHANGED << id, S, O, dec, k >>

AnalyzeSetup ==
    /\ IsOp("A", "setup")
    /\ S' = TLCEval(Setup(Op.in, id.ch, Case.strict))
    /\ Consume(S'.e, HeaderBs, "audio")
    /\ UNCHANGED << id, com, O, dec, k >>

\* A recorded call may stand for Op.m calls with the same packet and the same answer.
AnalyzeAudio ==
    /\ IsOp("A", "audio")
    /\ LET d == TLCEval(Audio(Op.in, S, id))
       IN  /\ Consume(d.fault,
                 If(d.status = "drop" /\ Op.bs # -1, "V07", "a packet decoders skip is kept")
                 \cup If(d.status # "drop" /\ Op.bs = -1, "V07", "a packet decoders use is skipped")
                 \cup If(d.status # "drop" /\ Op.bs \notin {-1, d.bs}, "V11", "block size"),
                 "audio")
           /\ dec' = Append(dec, [m |-> Op.m] @@ d)
    /\ UNCHANGED << id, com, S, O, k >>

-------------------------------------------------------------------------------
(* Second pass *)

\* The second pass has begun: no more analysis. This is the one documented panic.
LateAnalyze ==
    /\ \E ph \in {"ocomment", "osetup", "oaudio"} : IsOp("A", ph)
    /\ l' = l + 1 /\ phase' = "end"
    /\ bad' = bad \cup If(Op.r # "panic", "V11", "analysis after optimization began")
    /\ UNCHANGED << c, id, com, S, O, dec, k >>

OptimizeIdent ==
    /\ \E ph \in {"comment", "setup", "audio"} : IsOp("O", ph)
    /\ LET first == Case.ops[1].in
       IN  Consume("",
             IF Op.r = "none" THEN {<< "V05", "identification header dropped" >>}
             ELSE If(Len(Op.out) < 29 \/ SubSeq(Op.out, 1, 29) # SubSeq(first, 1, 29), "V05", "fields changed")
                  \cup If(Len(Op.out) # 30, "V05", "length")
                  \cup If(Len(Op.out) >= 30 /\ Op.out[30] # 1, "V05", "framing")
                  \cup HeaderBs,
             "ocomment")
    /\ UNCHANGED << id, com, S, O, dec, k >>

OptimizeComment ==
    /\ IsOp("O", "ocomment")
    /\ LET want == CommentPacket(NewVendor(com, Case.vendor, Case.tag, Case.short),
                                 NewFields(com, Case.comments))
       IN  Consume("", If(Op.r = "none" \/ Op.out # want, "V06", "comment header") \cup HeaderBs,
                   "osetup")
    /\ UNCHANGED << id, com, S, O, dec, k >>

\* float32 words (9.2.2) that denote the same number: m * 2^(e - 788) with 21 bits of mantissa
RECURSIVE Normal(_, _)
Normal(m, e) == IF m = 0 THEN << 0, 0 >> ELSE IF m % 2 = 1 THEN << m, e >> ELSE Normal(m \div 2, e + 1)
Float(w) == LET m == w[1] + 65536 * (w[2] % 32)
            IN  << Normal(m, (w[2] \div 32) % 1024), IF m = 0 THEN 0 ELSE w[2] \div 32768 >>

\* The codebook fields that values are looked up from (zero if there is no lookup)
SameValues(a, b) ==
    /\ a.lk = b.lk /\ a.dim = b.dim /\ a.n = b.n
    /\ a.seq = b.seq /\ a.mults = b.mults
    /\ Float(a.min) = Float(b.min) /\ Float(a.delta) = Float(b.delta)

\* how often each entry of book b (from 0) occurs in the analyzed packets
Counts(b) ==
    FoldLeft(LAMBDA acc, d :
               FoldLeft(LAMBDA a, i : IF d.ent[2 * i - 1] = b
                                      THEN [a EXCEPT ![d.ent[2 * i] + 1] = @ + d.m] ELSE a,
                        acc, Upto(Len(d.ent) \div 2)),
             TLCEval([i \in 1 .. S.books[b + 1].n |-> 0]), dec)

SetupDiffs(A, W) ==
    IF W.e # "" THEN {<< "V02", "unreadable: " \o W.e >>}
    ELSE If(Len(A.books) # Len(W.books), "V02", "number of codebooks")
         \cup UNION { If(i <= Len(W.books) /\ ~SameValues(A.books[i], W.books[i]),
                         "V02", "codebook " \o ToString(i - 1)) : i \in 1 .. Len(A.books) }
         \cup If([i \in 1 .. Len(A.floors) |-> [A.floors[i] EXCEPT !.p = 0]]
                 # [i \in 1 .. Len(W.floors) |-> [W.floors[i] EXCEPT !.p = 0]], "V02", "floors")
         \cup If([i \in 1 .. Len(A.residues) |-> [A.residues[i] EXCEPT !.p = 0]]
                 # [i \in 1 .. Len(W.residues) |-> [W.residues[i] EXCEPT !.p = 0]], "V02", "residues")
         \cup If([i \in 1 .. Len(A.mappings) |-> [A.mappings[i] EXCEPT !.p = 0, !.clean = TRUE]]
                 # [i \in 1 .. Len(W.mappings) |-> [W.mappings[i] EXCEPT !.p = 0, !.clean = TRUE]],
                 "V02", "mappings")
         \cup If([i \in 1 .. Len(A.modes) |-> << A.modes[i].big, A.modes[i].mapping >>]
                 # [i \in 1 .. Len(W.modes) |-> << W.modes[i].big, W.modes[i].mapping >>],
                 "V02", "modes")

Conformance(W, out) ==
    IF W.e # "" THEN {}
    ELSE If(~W.clean, "V04", "reserved value in the setup header")
         \cup If(~W.framing, "V04", "setup header without framing bit")
         \cup If(Len(out) # (W.p + 7) \div 8, "V04", "setup header with trailing bytes")
         \cup If(W.framing /\ Len(out) * 8 - W.p \in 1 .. 7 /\ RU(out, W.p, Len(out) * 8 - W.p) # 0,
                 "V04", "setup header padding")

\* Book i of the output has a code for exactly the used entries, complete and of least size.
\* Where that takes codewords of more than 32 bits, which the format cannot express, the
\* code has 32-bit codewords, and none for an entry that is more frequent than one with less.
CodeDiffs(i) ==
    LET cs == Counts(i - 1)
        b  == O'.books[i]
        used == NUsed(cs)
    IN  IF Len(b.lens) # Len(cs) THEN {}
        ELSE If(\E j \in 1 .. Len(cs) : (cs[j] = 0) # (b.lens[j] = 0), "V03",
                "codewords for unused entries, or none for used ones: book " \o ToString(i - 1))
             \cup If(used > 1 /\ b.open, "V03", "incomplete code: book " \o ToString(i - 1))
             \cup If(used > 0 /\ Cost(cs, b.lens) # OptimalCost(cs)
                     /\ ~(MaxOf(b.lens) = 32 /\ OptimalDepth(cs) > 32 /\ Ordered(cs, b.lens)), "V03",
                     "not optimal: book " \o ToString(i - 1))
             \cup If(b.fmt = "sparse" /\ cs # << >> /\ \A j \in 1 .. Len(cs) : b.lens[j] # 0, "V04",
                     "a bit spent on every entry to say that it is used: book " \o ToString(i - 1))

OptimizeSetup ==
    /\ IsOp("O", "osetup")
    /\ O' = IF Op.r = "pkt" THEN TLCEval(Setup(Op.out, id.ch, FALSE)) ELSE NoSetup
    /\ Consume("", IF Op.r = "none" THEN {<< "V02", "setup header dropped" >>}
                   ELSE SetupDiffs(S, O') \cup Conformance(O', Op.out) \cup HeaderBs
                        \cup (IF O'.e # "" THEN {}
                              ELSE UNION { CodeDiffs(i) : i \in 1 .. Min2(Len(O'.books), Len(S.books)) }),
               IF O'.e = "" THEN "oaudio" ELSE "end")
    /\ UNCHANGED << id, com, S, dec, k >>

\* Bits of the packet when its symbols are written with the new code
NewBits(d) == FoldLeft(LAMBDA a, i : a + O.books[d.ent[2 * i - 1] + 1].lens[d.ent[2 * i] + 1],
                       d.rb, Upto(Len(d.ent) \div 2))

AudioDiffs(d, out) ==
    LET w == TLCEval(Audio(out, O, id))
        compact == Len(out) = (NewBits(d) + 7) \div 8
        \* everything was read, and only the padding of the last byte is left
        exact == w.status = d.status /\ w.raw = d.raw /\ w.ent = d.ent
    IN  IF d.status = "ok"
        THEN If(~exact, "V01", "symbols differ")
             \cup If(w.bs # d.bs, "V01", "block size differs")
             \cup If(exact /\ ~compact, "V04", "trailing bytes in an audio packet")
             \cup If(exact /\ compact /\ Len(out) * 8 > w.p /\ RU(out, w.p, Len(out) * 8 - w.p) # 0,
                     "V04", "audio packet padding")
        ELSE \* truncated
             If(~IsPrefix(d.raw, w.raw) \/ ~IsPrefix(d.ent, w.ent) \/ w.bs # d.bs,
                "V08", "symbols before the truncation changed")
             \cup If(~compact, "V08", "not the symbols before the truncation and nothing else")
             \cup If(compact /\ NewBits(d) < 8 * Len(out)
                     /\ RU(out, NewBits(d), 8 * Len(out) - NewBits(d)) # 0, "V08", "padding")
             \cup If(compact /\ ~exact /\ IsPrefix(d.raw, w.raw) /\ IsPrefix(d.ent, w.ent),
                     "V08KF", "padding decodes as further symbols")

OptimizeAudio ==
    /\ IsOp("O", "oaudio") /\ k < Len(dec)
    /\ LET d == dec[k + 1]
       IN  Consume("",
             IF d.status = "drop"
             THEN If(Op.r = "pkt", "V07", "a packet decoders skip is written")
             ELSE IF Op.r = "none" THEN {<< "V07", "a packet decoders use is dropped" >>}
             ELSE If(Op.bs # d.bs, "V11", "block size of the second pass")
                  \cup (IF d.status = "ok" /\ Case.ops[k + 4].in # Op.in THEN {} ELSE AudioDiffs(d, Op.out)),
             "oaudio")
    /\ k' = k + 1
    /\ UNCHANGED << id, com, S, O, dec >>

Done == UNCHANGED vars /\ (phase = "end" \/ l = Len(Case.ops))

Step == LateAnalyze \/ New \/ AnalyzeComment \/ AnalyzeSetup \/ AnalyzeAudio
        \/ OptimizeIdent \/ OptimizeComment \/ OptimizeSetup \/ OptimizeAudio
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

\* What a run decides: the properties in Props. Each disagreement is printed before the
\* invariant fails.
CONSTANT Props
Holds ==
    LET mine == { b \in bad : b[1] \in Props }
    IN  mine = {} \/ (PrintT(<< "BAD", c, l, mine >>) /\ FALSE)

\* A known finding (see known-findings.txt) is noted and nothing else.
Note ==
    \/ ~(l = Len(Case.ops) \/ phase = "end")
    \/ \A b \in bad : b[1] # "V08KF"
    \/ PrintT(<< "KF", c >>)

Short == [c |-> c, l |-> l, phase |-> phase, bad |-> bad]
===============================================================================
