------------------------------- MODULE Sources -------------------------------
(* The environment of the remuxer: a machine that writes source files, page   *)
(* by page. TLC explores it exhaustively; every state is a scenario that the  *)
(* drivers turn into a real Ogg file, which the real remuxer and OggTrace     *)
(* then both run on.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Kind,       \* "streams" or "granules"
         MaxPages,
         MaxStreams,
         MaxPackets

VARIABLE src         \* the pages so far

-------------------------------------------------------------------------------
(* Several logical streams: how pages of Vorbis streams and others follow one *)
(* another, with end of stream flags anywhere.                                *)
(*  v: begins a Vorbis stream   o: begins another stream   h: the other       *)
(*  headers   a: audio   x: data of another stream   u: data of a stream that *)
(*  never began                                                               *)
PagesOf(s) == SelectSeq(src, LAMBDA p : p.s = s)
Begun == { s \in 1 .. MaxStreams : PagesOf(s) # << >> }
KindNow(s) == LET P == PagesOf(s) IN P[Len(P)].k
NextKind(s) == CASE KindNow(s) = "v" -> "h" [] KindNow(s) \in {"h", "a"} -> "a" [] OTHER -> "x"

StreamPage ==
    \E eos \in BOOLEAN :
        \/ \E k \in {"v", "o"} : Cardinality(Begun) < MaxStreams
                                 /\ src' = Append(src, [s |-> Cardinality(Begun) + 1, k |-> k, eos |-> eos])
        \/ \E s \in Begun : src' = Append(src, [s |-> s, k |-> NextKind(s), eos |-> eos])
        \/ \* data of a stream that never began, once
           /\ PagesOf(0) = << >> /\ ~eos
           /\ src' = Append(src, [s |-> 0, k |-> "u", eos |-> eos])

-------------------------------------------------------------------------------
(* One stream: block sizes (short, long, none: a packet that is dropped), page *)
(* ends and granule positions (as a difference from the right one).            *)
Packets == LET RECURSIVE N(_) N(k) == IF k = 0 THEN 0 ELSE N(k - 1) + Len(src[k].b) IN N(Len(src))
Wrong == {"0", "+1", "-1", "+9", "-9", "big", "none", "zero"}

GranulePage ==
    \E n \in 1 .. MaxPackets - Packets : \E b \in [1 .. n -> {"s", "l", "e"}] : \E g \in Wrong :
        src' = Append(src, [b |-> b, g |-> g])

Init == src = << >>
Next == Len(src) < MaxPages /\ (IF Kind = "streams" THEN StreamPage ELSE GranulePage)
Emit == PrintT(<< "SRC", ToJson(src) >>)

(* What makes a scenario rejected, as a statement and as an automaton that    *)
(* reads page after page: they agree on all of them.                          *)
Vorbis(k) == src[k].k = "v"
Mixed ==
    \E b \in 1 .. Len(src) : Vorbis(b) /\ \E a \in 1 .. b - 1 :
        /\ Vorbis(a)
        /\ LET mine == { k \in 1 .. Len(src) : src[k].s = src[a].s }
               before == { k \in mine : k < b }
               last == CHOOSE k \in before : \A m \in before : m <= k
           IN  ~src[last].eos \/ last = a \/ \E k \in mine : k > b
Reader ==
    LET RECURSIVE R(_, _, _)
        \* cur: the latest Vorbis stream; open: it has not ended
        R(k, cur, open) ==
            IF k > Len(src) THEN FALSE
            ELSE IF src[k].k = "v" THEN open \/ R(k + 1, src[k].s, TRUE)
            ELSE IF src[k].k \in {"h", "a"}
            THEN src[k].s # cur \/ R(k + 1, cur, ~src[k].eos)
            ELSE R(k + 1, cur, open)
    IN  R(1, 0, FALSE)
Agree == Kind # "streams" \/ Mixed = Reader
===============================================================================
