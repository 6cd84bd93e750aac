------------------------------- MODULE Session -------------------------------
(* How calls into the library may end, whatever the bytes: the observer of the *)
(* calls a user makes. It knows nothing of the bytes; a run that panics, ends  *)
(* the process or does not return is not one of its behaviours.                *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Runs == JsonDeserialize(IOEnv.CASES)   \* [kind, ev: << <<call, outcome>>, ... >>]
CONSTANT Lo, Hi

VARIABLES c,    \* run
          i,    \* calls made
          st    \* "none": no optimizer; "open"; "failed": a call returned an error; "done"
vars == << c, i, st >>

Init == c \in Lo .. Hi /\ i = 0 /\ st = "none"
Ev  == Runs[c].ev
More == i < Len(Ev)
Call == Ev[i + 1][1]
Out  == Ev[i + 1][2]
Go(s) == st' = s /\ i' = i + 1 /\ UNCHANGED c

\* The optimizer is made from the first packet, then analyzes and optimizes packets
New      == More /\ st = "none" /\ Call = "new" /\ \/ Out = "ok" /\ Go("open")
                                                   \/ Out = "err" /\ Go("failed")
Analyze  == More /\ st = "open" /\ Call = "analyze" /\ \/ Out \in {"ok", "ok, no audio"} /\ Go("open")
                                                       \/ Out = "err" /\ Go("failed")
Optimize == More /\ st = "open" /\ Call = "optimize" /\ \/ Out \in {"packet", "dropped"} /\ Go("open")
                                                        \/ Out = "err" /\ Go("failed")
\* Whole files, and bit-packed integers: a remuxer or a reader stays usable after errors
Remux    == More /\ Call = "remux" /\ Out \in {"ok", "err"} /\ Go(st)
Bits     == More /\ Call \in {"read", "write"} /\ Out \in {"value", "err"} /\ Go(st)
\* A request that began is answered: no crash, no hang
Answered == ~More /\ Runs[c].end = "answered" /\ st # "done" /\ st' = "done" /\ UNCHANGED << c, i >>
Done     == st = "done" /\ UNCHANGED vars

Next == New \/ Analyze \/ Optimize \/ Remux \/ Bits \/ Answered \/ Done
Short == [c |-> c, i |-> i, st |-> st]
==============================================================================
