------------------------------- MODULE OggWhole -------------------------------
(* What is written for a source of one Vorbis stream, said at once and not    *)
(* packet by packet. OggRemux must come to the same for every such source     *)
(* (AsWhole), and sources that are too long for it are judged by this         *)
(* (InitWhole leads right to the judgement).                                  *)
EXTENDS OggStated

One == /\ ev.err = "" /\ ev.out # << >> /\ ~Mg.on
       /\ \A k \in 1 .. Len(ev.out) : ev.out[k].serial = ev.out[1].serial /\ (ev.out[k].first <=> k = 1)
       /\ Vorbis!Ident(ev.out[1].data).kind = ""
       /\ LET a == Oracle(ev.out[1].serial).a IN Len(a) = Len(ev.out) /\ \A k \in 1 .. Len(a) : a[k].err = ""

Whole ==
    LET P    == ev.out
        o    == Oracle(P[1].serial)
        K    == SelectSeq([k \in 1 .. Len(P) |-> k], LAMBDA k : k <= 3 \/ o.a[k].bs # -1)
        n    == Len(K)
        A    == SubSeq(K, 4, n)
        \* samples up to the end of every audio packet
        S    == TLCEval(FoldLeft(LAMBDA s, k : Append(s, IF k = 1 THEN Zero64 ELSE Add(s[k - 1], Samples(o.a[A[k - 1]].bs, o.a[A[k]].bs))),
                                 << >>, [k \in 1 .. Len(A) |-> k]))
        \* the packet that ends the first audio page, from which the start is known, if it can be
        ends == { k \in 1 .. Len(A) : P[A[k]].lastInPage }
        ref  == IF ends = {} THEN 0 ELSE CHOOSE k \in ends : \A m \in ends : k <= m
        known == ref # 0 /\ (ref < Len(A) \/ Len(A) = 1)
        off  == IF known THEN SatSub(P[A[ref]].gran, S[ref]) ELSE Zero64
        pos(k) == IF Case.ign \/ k < ref THEN S[k] ELSE Add(S[k], off)
        \* the source may end within the samples of the last packet
        last == LET k == Len(A)
                    x == IF Case.ign THEN Sub(P[A[k]].gran, off) ELSE P[A[k]].gran
                    real(y) == IF Case.ign THEN Add(y, off) ELSE y
                IN  IF k > 1 /\ Leq(real(Add(pos(k - 1), Nat64(1))), P[A[k]].gran) /\ Leq(P[A[k]].gran, real(pos(k)))
                    THEN x ELSE pos(k)
        end(j) == IF j = n THEN 2 ELSE IF j \in {1, 3} \/ (~Case.ign /\ known /\ off # Zero64 /\ j = ref + 3) THEN 1 ELSE 0
    IN  [ str |-> << [ serial |-> P[1].serial, n |-> n, seen2 |-> Len(P), first |-> IF ref = 0 THEN << >> ELSE << P[A[ref]].gran, ref + 2 >>,
                       off |-> IF known THEN off ELSE << >> ] >>,
          exp |-> [j \in 1 .. n |-> [ idx |-> 1, n |-> j - 1, end |-> end(j), code |-> end(j), last |-> j = n,
                                      gran |-> IF j <= 3 THEN Zero64 ELSE IF j = n THEN last ELSE pos(j - 3),
                                      data |-> o.o[K[j]].data ]] ]

AsWhole == (ph = "judge" /\ res = "" /\ One) =>
             LET w == Whole
             IN  exp = w.exp /\ \A f \in DOMAIN w.str[1] : str[1][f] = w.str[1][f]

InitWhole ==
    /\ c \in Lo .. Hi
    /\ Assert(One, << "not a source of one stream", c >>)
    /\ LET w == TLCEval(Whole) IN str = w.str /\ exp = TLCEval(w.exp)
    /\ ph = "judge" /\ i = Len(ev.out) /\ reading = FALSE /\ log = << >> /\ res = "" /\ bad = {}
===============================================================================
