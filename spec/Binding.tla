------------------------------- MODULE Binding -------------------------------
(* The JavaScript binding: an object made without settings, and any number of  *)
(* calls that hand it a file. Each call does what the library does with its    *)
(* default settings at that point of the history, and only that: the bytes of  *)
(* the new file are returned, or the text of the error is thrown.              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)   \* [js: << [r, out, text] >>, lib: the same]
CONSTANTS Lo, Hi, Props

VARIABLES c,    \* history
          l,    \* calls made
          bad
vars == << c, l, bad >>

H == Cases[c]
Init == c \in Lo .. Hi /\ l = 0 /\ bad = {}

If(cond, what) == IF cond THEN {<< "C03", what >>} ELSE {}

Call ==
    /\ l < Len(H.lib)
    /\ l' = l + 1 /\ UNCHANGED c
    /\ LET want == H.lib[l']
       IN  IF Len(H.js) < l' THEN bad' = bad \cup {<< "C03", "no answer" >>}
           ELSE LET got == H.js[l']
                IN  bad' = bad
                      \cup If(got.r = "panic", "the binding panics")
                      \cup If(got.r # "panic" /\ (got.r = "ok") # (want.r = "ok"), "success or failure differs")
                      \cup If(got.r = "ok" /\ want.r = "ok" /\ got.out # want.out, "another file")
                      \cup If(got.r = "err" /\ want.r = "err" /\ got.text # want.text, "another error")

End == l = Len(H.lib) /\ UNCHANGED vars
Next == Call \/ End

Bad == { b \in bad : b[1] \in Props }
Holds == Bad = {} \/ (PrintT(<< "BAD", c, l, Bad >>) /\ FALSE)
Short == [c |-> c, l |-> l]
==============================================================================
