-------------------------------- MODULE Args ---------------------------------
(* The environment of the program: someone who types arguments. TLC explores  *)
(* every list of up to MaxArgs of them; the drivers put two file names behind *)
(* each, run the real program and have Cli decide what it did.                *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT MaxArgs
VARIABLE argv

Tokens == {"-", "--", "o", "-q", "--quiet", "-v", "-vq", "--verbose", "-r", "ogg2ogg", "--remuxer=ogg2ogg", "-rogg2ogg", "--remuxer",
           "-h", "--help", "--version", "-z", "--nope", "--remuxer_option", "--remuxer_option=zzz", "x=y", "--quiet=1", "", "-qh", "=", "--="}

Init == argv = << >>
Next == Len(argv) < MaxArgs /\ \E t \in Tokens : argv' = Append(argv, t)
Emit == PrintT(<< "SRC", ToJson(argv) >>)
Fits == Len(argv) <= MaxArgs
===============================================================================
