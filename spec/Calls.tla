-------------------------------- MODULE Calls --------------------------------
(* The environment of the optimizer: who calls it, with what, in what order.  *)
(* TLC explores all histories up to a length; the drivers make them on the    *)
(* real optimizer, and VorbisTrace decides every answer.                      *)
(*  i c s: the three headers   a: audio   e: an empty packet   h: an audio    *)
(*  packet with the header flag set   t: one that ends at once   l: audio in  *)
(*  the other mode   j: no Vorbis header at all                               *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT MaxAnalyzed

VARIABLES first,     \* the packets analyzed, in order
          second,    \* how many of them (and the first header) were optimized
          late       \* a packet analyzed after that, which is the documented panic
vars == << first, second, late >>

Kinds == {"i", "c", "s", "a", "e", "h", "t", "l", "j"}

Init == first = << >> /\ second = 0 /\ late = ""

\* analysis stops at the first error
Fine == \A k \in 1 .. Len(first) : CASE k = 1 -> first[k] = "c" [] k = 2 -> first[k] = "s" [] OTHER -> first[k] \in {"a", "e", "t", "l"}
Analyze  == second = 0 /\ late = "" /\ Fine /\ Len(first) < MaxAnalyzed /\ \E p \in Kinds : first' = Append(first, p) /\ UNCHANGED << second, late >>
Optimize == late = "" /\ Fine /\ second < Len(first) + 1 /\ second' = second + 1 /\ UNCHANGED << first, late >>
TooLate  == second > 0 /\ late = "" /\ \E p \in {"c", "s", "a"} : late' = p /\ UNCHANGED << first, second >>
Next == Analyze \/ Optimize \/ TooLate

Emit == PrintT(<< "SRC", ToJson([first |-> first, second |-> second, late |-> late]) >>)
Fits == second <= Len(first) + 1
===============================================================================
