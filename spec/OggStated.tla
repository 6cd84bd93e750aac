------------------------------ MODULE OggStated ------------------------------
(* The properties of the remuxer as statements about the whole source and the *)
(* whole outcome, checked of the machine itself on every case: OggRemux reads *)
(* and writes packet by packet, these look at everything at once. A case that *)
(* violates them is a mistake in the specification, not in the code.          *)
EXTENDS OggTrace

\* The packets that were read, up to the one that made the machine stop
Read == IF res = "" THEN ev.out ELSE SubSeq(ev.out, 1, Min2(i + 1, Len(ev.out)))
BeginsVorbis(p) == p.first /\ Vorbis!Ident(p.data).e = ""
Begins == { k \in 1 .. Len(Read) : BeginsVorbis(Read[k]) }

\* O09: a Vorbis stream begins at b before that which began at a ended
Mixed == \E b \in Begins : \E a \in { k \in Begins : k < b } :
            LET mine == { k \in 1 .. Len(Read) : Read[k].serial = Read[a].serial }
                last == CHOOSE k \in mine : k < b /\ \A m \in mine : m < b => m <= k
            IN  ~Read[last].last \/ last = a \/ \E k \in mine : k > b
Small == Cardinality(Begins) <= 20     \* these look at all pairs
MixedStreams == (ph = "judge" /\ Small) => (Mixed <=> res = "grouped")

\* O07: streams are those of the source that begin with a Vorbis identification header, in order
Chosen == (ph = "judge" /\ res = "" /\ Small) =>
             [k \in 1 .. Len(str) |-> str[k].serial]
             = [k \in 1 .. Cardinality(Begins) |-> Read[CHOOSE b \in Begins : Cardinality({ m \in Begins : m < b }) = k - 1].serial]

\* O08: one stream after the other, all that are kept of each, in order
InOrder == (ph = "judge" /\ res = "" /\ Small) =>
             /\ \A k \in 1 .. Len(exp) - 1 : exp[k].idx <= exp[k + 1].idx
             /\ \A s \in 1 .. Len(str) : LET X == Of(s) IN
                  /\ Len(X) = str[s].n
                  /\ \A k \in 1 .. Len(X) : X[k].n = k - 1 /\ X[k].last = (k = Len(X))

\* O03, O04, O05: with S samples from the first audio packet to this one, and the offset of the first audio page that
\* completes a packet that is kept, positions are S + offset from there on (S, if it is to be ignored); only the last one
\* may be less, if the source says so, but more than the one before
Stated(s) ==
    LET X   == SelectSeq(Of(s), LAMBDA x : x.n >= 3)
        kept == { k \in 1 .. Len(Case.oracle) : Case.oracle[k].serial = str[s].serial }
        A   == Case.oracle[CHOOSE k \in kept : TRUE].a
        BS  == SelectSeq([k \in 1 .. Min2(str[s].seen2, Len(A)) - 3 |-> A[k + 3].bs], LAMBDA b : b # -1)
        S   == FoldLeft(LAMBDA a, k : Append(a, IF k = 1 THEN Zero64 ELSE Add(a[k - 1], Samples(BS[k - 1], BS[k]))), << >>, [k \in 1 .. Len(BS) |-> k])
        ref == IF str[s].first = << >> THEN 0 ELSE str[s].first[2] - 2
        off == IF ref = 0 THEN Zero64 ELSE SatSub(str[s].first[1], S[ref])
        \* a page that is the first and the last one can only trim the end
        pos(k) == IF Case.ign \/ k < ref \/ (ref = Len(X) /\ Len(X) > 1) THEN S[k] ELSE Add(S[k], off)
        at(k)  == Sub(X[k].gran, Mg.gadd)
    IN  X = << >> \/
        /\ Len(S) = Len(X)
        /\ \A k \in 1 .. Len(X) - 1 : at(k) = pos(k)
        /\ (Len(X) = 1 /\ at(1) = pos(1))
           \/ at(Len(X)) = pos(Len(X))
           \/ (Leq(Add(at(Len(X) - 1), Nat64(1)), at(Len(X))) /\ Leq(at(Len(X)), pos(Len(X))))
Positions == (ph = "judge" /\ res = "" /\ Small) => \A s \in 1 .. Len(str) : Stated(s)
===============================================================================
