------------------------------ MODULE OggRemux -------------------------------
(* The two-pass remuxer of Ogg Vorbis physical bitstreams as a state machine, *)
(* one action per packet that is read in each pass.                           *)
(*                                                                            *)
(* What the optimizer makes of a packet is not derived again here: the        *)
(* Vorbis specification decides that. It is part of the case, as recorded     *)
(* from the optimizer when it is called directly (Case.oracle).               *)
EXTENDS OggPages, FiniteSets, Json, IOUtils

Vorbis == INSTANCE VorbisSetup

Cases == JsonDeserialize(IOEnv.CASES)
CONSTANT Lo, Hi            \* the cases of this run

VARIABLES c,        \* case number
          ph,       \* "pass1", "pass2", "judge", "done"
          i,        \* packets read in this pass
          str,      \* the Vorbis streams, in order of appearance
          reading,  \* inside a Vorbis stream (pass 1)
          exp,      \* the packets written
          log,      \* what a mangler was asked
          res,      \* the error the call must return, "" if none
          bad
vars == << c, ph, i, str, reading, exp, log, res, bad >>
View == << c, ph, i, Len(str), Len(exp), res, bad >>

Case == Cases[c]
Mg   == Case.mg
\* The packets of the source, and how reading it ends (no variable, as it would be copied with every state)
ASSUME TLCSet(1, TLCEval([k \in Lo .. Hi |-> TLCEval(Demux(Cases[k].in, Cases[k].start, Cases[k].verify))]))
ev == TLCGet(1)[c]

Init ==
    /\ c \in Lo .. Hi
    /\ ph = "pass1" /\ i = 0 /\ str = << >> /\ reading = FALSE /\ exp = << >> /\ log = << >>
    /\ res = "" /\ bad = {}

Pkt == ev.out[i + 1]
More == i < Len(ev.out)
StreamOf(serial) == LET s == { k \in 1 .. Len(str) : str[k].serial = serial } IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
Known == StreamOf(Pkt.serial)
Oracle(serial) == LET s == { k \in 1 .. Len(Case.oracle) : Case.oracle[k].serial = serial }
                  IN  Case.oracle[CHOOSE k \in s : TRUE]

Fail(e) == /\ res' = e /\ ph' = "judge" /\ UNCHANGED << c, i, str, reading, exp, log, bad >>

-------------------------------------------------------------------------------
(* Pass 1: find the Vorbis streams and analyze their packets                  *)

NotVorbis == {"small", "type", "unexpected", "pattern"}

\* The mangler changes what the identification header says
Freq(d)  == SubSeq(d, 13, 16)
Rates(d) == SubSeq(d, 17, 28)
\* The mangler sets any of the three and leaves the others
NewRates(d) == LET r(k) == IF Mg.rates[k] = << >> THEN SubSeq(d, 13 + 4 * k, 16 + 4 * k) ELSE Mg.rates[k]
               IN  IF Mg.rates = << >> THEN Rates(d) ELSE r(1) \o r(2) \o r(3)
Asked(m, in, out) == [m |-> m, n |-> -1, last |-> FALSE, in |-> in, out |-> out]

BeginVorbisStream ==
    /\ ph = "pass1" /\ More /\ Pkt.first /\ ~reading
    /\ Vorbis!Ident(Pkt.data).kind = ""
    /\ str' = Append(str, [ serial |-> Pkt.serial, n |-> 1, seen |-> 1, first |-> << >>,
                            w |-> 0, seen2 |-> 0, lastg |-> Zero64, lastbs |-> 0, off |-> << >>,
                            calc |-> Zero64 ])
    /\ reading' = TRUE
    /\ log' = log \o << Asked("freq", Freq(Pkt.data), IF Mg.freq = << >> THEN Freq(Pkt.data) ELSE Mg.freq),
                        Asked("rates", Rates(Pkt.data), NewRates(Pkt.data)) >>
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, exp, res, bad >>

RejectGroupedStream ==
    /\ ph = "pass1" /\ More /\ Pkt.first /\ reading
    /\ Vorbis!Ident(Pkt.data).kind = ""
    /\ Fail("grouped")

SkipStream ==
    /\ ph = "pass1" /\ More /\ Pkt.first
    /\ Vorbis!Ident(Pkt.data).kind \in NotVorbis
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, str, reading, exp, log, res, bad >>

RejectIdent ==
    /\ ph = "pass1" /\ More /\ Pkt.first
    /\ Vorbis!Ident(Pkt.data).kind \notin NotVorbis \cup {""}
    /\ Fail(Vorbis!Ident(Pkt.data).kind)

SkipPacket ==
    /\ ph \in {"pass1", "pass2"} /\ More /\ Known = 0 /\ (ph = "pass2" \/ ~Pkt.first)
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, str, reading, exp, log, res, bad >>

\* Whatever its end of stream flags say, a stream has not ended if it goes on
RejectInterleavedStream ==
    /\ ph = "pass1" /\ More /\ ~Pkt.first /\ Known \notin {0, Len(str)}
    /\ Fail("grouped")

Analyze ==
    /\ ph = "pass1" /\ More /\ Known # 0 /\ Known = Len(str) /\ ~Pkt.first
    /\ LET s == str[Known]
           a == Oracle(s.serial).a[s.seen + 1]
           kept == s.seen < 3 \/ a.bs # -1
       IN  /\ a.err = ""
           /\ str' = [str EXCEPT ![Known] =
                        [ s EXCEPT !.seen = @ + 1, !.n = IF kept THEN @ + 1 ELSE @,
                                   !.first = IF @ = << >> /\ Pkt.lastInPage /\ s.seen >= 3 /\ a.bs # -1
                                             THEN << Pkt.gran, s.n >> ELSE @ ]]
    /\ reading' = ~Pkt.last
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, exp, log, res, bad >>

RejectPacket ==
    /\ ph = "pass1" /\ More /\ Known # 0 /\ Known = Len(str) /\ ~Pkt.first
    /\ LET s == str[Known] IN Oracle(s.serial).a[s.seen + 1].err # "" /\ Fail(Oracle(s.serial).a[s.seen + 1].err)

RejectContainer == ph = "pass1" /\ ~More /\ ev.err # "" /\ Fail(ev.err)
RejectNoVorbis  == ph = "pass1" /\ ~More /\ ev.err = "" /\ str = << >> /\ Case.errno /\ Fail("novorbis")

\* SOURCE_DATE_EPOCH must be what date +%s prints: an ASCII integer
IsDate(s) == LET digits == IF s # << >> /\ s[1] = 45 THEN SubSeq(s, 2, Len(s)) ELSE s
             IN  digits # << >> /\ \A k \in 1 .. Len(digits) : digits[k] \in 48 .. 57

Rewind ==
    /\ ph = "pass1" /\ ~More /\ ev.err = "" /\ ~(str = << >> /\ Case.errno)
    /\ IF Case.rnd /\ Case.sdesup /\ Case.sdeset /\ ~IsDate(Case.sde)
       THEN Fail("sde")
       ELSE ph' = "pass2" /\ i' = 0 /\ UNCHANGED << c, str, reading, exp, log, res, bad >>

-------------------------------------------------------------------------------
(* Pass 2: write every packet that is kept                                    *)

\* Samples that a decoder returns for a packet, given the block size before it (Vorbis I, 4.3.8)
Samples(prev, cur) == Nat64((prev + cur) \div 4)

\* The granule position of audio packet s.w (from 0) of block size bs. calc is that of a stream that
\* starts at 0. A stream starts where the first audio page of the source says.
Granule(s, bs, last, page) ==
    LET firstAudio == s.w = 3
        ref  == s.first # << >> /\ s.first[2] = s.w
        calc == IF firstAudio THEN Zero64 ELSE Add(s.lastg, Samples(s.lastbs, bs))
        off  == IF s.off = << >> THEN Zero64 ELSE s.off
        \* bounds of a sensible last granule position of the source
        lo   == Add(s.lastg, Nat64(1))
        real(x) == IF Case.ign THEN Add(x, off) ELSE x
    IN  IF last /\ ~firstAudio
        THEN [g |-> IF Leq(real(lo), page) /\ Leq(page, real(calc))
                    THEN IF Case.ign THEN Sub(page, off) ELSE page
                    ELSE calc,
              off |-> s.off]
        ELSE IF ref
        THEN LET o == SatSub(s.first[1], calc)
             IN  [g |-> IF Case.ign THEN calc ELSE Add(calc, o), off |-> o]
        ELSE [g |-> calc, off |-> s.off]

Mangled(n, code) == IF Mg.every > 0 /\ code = 0 /\ n >= 3 /\ n % Mg.every = 0 THEN 1 ELSE code
NewIdent(d) == SubSeq(d, 1, 12) \o (IF Mg.freq = << >> THEN Freq(d) ELSE Mg.freq)
               \o NewRates(d) \o SubSeq(d, 29, Len(d))

\* Does this packet end the first audio page of a stream that does not start at 0?
EndsOffsetPage(s, g) == /\ ~Case.ign /\ g.off # << >> /\ g.off # Zero64
                        /\ s.first # << >> /\ s.first[2] = s.w

Write ==
    /\ ph = "pass2" /\ More /\ Known # 0
    /\ LET s    == str[Known]
           o    == Oracle(s.serial)
           d    == o.o[s.seen2 + 1]
           bs   == IF s.w < 3 THEN -1 ELSE o.a[s.seen2 + 1].bs
           last == s.w = s.n - 1
           g    == IF s.w < 3 THEN [g |-> Zero64, off |-> s.off] ELSE Granule(s, bs, last, Pkt.gran)
           end  == IF last THEN 2 ELSE IF s.w \in {0, 2} \/ EndsOffsetPage(s, g) THEN 1 ELSE 0
           gm   == IF s.w < 3 THEN g.g ELSE Add(g.g, Mg.gadd)
       IN  /\ d.kept
           /\ exp' = Append(exp, [ idx |-> Known, n |-> s.w, end |-> Mangled(s.w, end), code |-> end, gran |-> gm,
                                   data |-> IF s.w = 0 THEN NewIdent(d.data) ELSE d.data, last |-> last ])
           /\ log' = IF ~Mg.on THEN log ELSE
                     log \o << [m |-> "serial", n |-> s.w, last |-> last, in |-> << Known >>, out |-> << Known >>],
                               [m |-> "end", n |-> s.w, last |-> last, in |-> << end >>, out |-> << Mangled(s.w, end) >>],
                               [m |-> "granule", n |-> s.w, last |-> last, in |-> g.g, out |-> gm] >>
           /\ str' = [str EXCEPT ![Known] = [ s EXCEPT !.w = @ + 1, !.seen2 = @ + 1,
                                                       !.lastg = g.g, !.lastbs = bs, !.off = g.off ]]
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, reading, res, bad >>

Discard ==
    /\ ph = "pass2" /\ More /\ Known # 0
    /\ ~Oracle(Pkt.serial).o[str[Known].seen2 + 1].kept
    /\ str' = [str EXCEPT ![Known].seen2 = @ + 1]
    /\ i' = i + 1
    /\ UNCHANGED << c, ph, reading, exp, log, res, bad >>

Finish == ph = "pass2" /\ ~More /\ ph' = "judge" /\ UNCHANGED << c, i, str, reading, exp, log, res, bad >>

Read1 == BeginVorbisStream \/ RejectGroupedStream \/ SkipStream \/ RejectIdent \/ Analyze \/ RejectPacket \/ RejectInterleavedStream
         \/ RejectContainer \/ RejectNoVorbis \/ Rewind
Step  == Read1 \/ SkipPacket \/ Write \/ Discard \/ Finish
===============================================================================
