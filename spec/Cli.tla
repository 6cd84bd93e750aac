--------------------------------- MODULE Cli ---------------------------------
(* The command line program as a state machine: it parses its arguments, opens *)
(* files, decides the settings, runs the library and reports. What the library *)
(* does with the file and the settings is part of the case: it was recorded    *)
(* from a direct call (Case.lib), with the settings that Settings must match.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
CONSTANTS Lo, Hi, Props

VARIABLES c,     \* case
          k,     \* arguments consumed
          opt,   \* the options met: sequence of [n |-> name, v |-> value]
          free,  \* the arguments that are not options
          ph,    \* "parse", "usage", "version", "files", "remuxer", "settings", "library", "exit", "done"
          want,  \* what the program must do: see Outcome
          bad
vars == << c, k, opt, free, ph, want, bad >>
View == << c, k, ph, want, bad >>

Case == Cases[c]
Arg  == Case.argv[k + 1]
More == k < Len(Case.argv)
If(cond, prop, why) == IF cond THEN {<< prop, why >>} ELSE {}

\* Strings
Ch(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
Index(s, ch) == LET at == { i \in 1 .. Len(s) : Ch(s, i) = ch }
                IN  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Contains(s, p) == \E i \in 1 .. Len(s) - Len(p) + 1 : SubSeq(s, i, i + Len(p) - 1) = p

Flags  == {"help", "version", "quiet", "verbose"}
Valued == {"remuxer", "vendor_string_action", "comment_fields_action", "remuxer_option"}
Single == (Flags \cup Valued) \ {"verbose", "remuxer_option"}
Short  == [h |-> "help", q |-> "quiet", v |-> "verbose", r |-> "remuxer"]

Init == /\ c \in Lo .. Hi
        /\ k = 0 /\ opt = << >> /\ free = << >> /\ ph = "parse" /\ bad = {}
        /\ want = "nothing yet"

Fail(why) == ph' = "exit" /\ want' = why /\ UNCHANGED << c, k, opt, free, bad >>

-------------------------------------------------------------------------------
(* Arguments                                                                  *)
IsOption(a) == Len(a) > 1 /\ Ch(a, 1) = "-"

FirstFree ==
    /\ ph = "parse" /\ More /\ ~IsOption(Arg)
    /\ free' = SubSeq(Case.argv, k + 1, Len(Case.argv))
    /\ k' = Len(Case.argv) /\ UNCHANGED << c, opt, ph, want, bad >>

EndOfOptions ==
    /\ ph = "parse" /\ More /\ Arg = "--"
    /\ free' = SubSeq(Case.argv, k + 2, Len(Case.argv))
    /\ k' = Len(Case.argv) /\ UNCHANGED << c, opt, ph, want, bad >>

LongOption ==
    /\ ph = "parse" /\ More /\ Starts(Arg, "--") /\ Len(Arg) > 2
    /\ LET eq   == Index(Arg, "=")
           name == IF eq = 0 THEN From(Arg, 3) ELSE SubSeq(Arg, 3, eq - 1)
       IN  IF name \notin Flags \cup Valued THEN Fail("bad arguments")
           ELSE IF name \in Flags
           THEN IF eq # 0 THEN Fail("bad arguments")
                ELSE opt' = Append(opt, [n |-> name, v |-> ""]) /\ k' = k + 1 /\ UNCHANGED << c, free, ph, want, bad >>
           ELSE IF eq # 0
           THEN opt' = Append(opt, [n |-> name, v |-> From(Arg, eq + 1)]) /\ k' = k + 1 /\ UNCHANGED << c, free, ph, want, bad >>
           ELSE IF k + 1 = Len(Case.argv) THEN Fail("bad arguments")
           ELSE opt' = Append(opt, [n |-> name, v |-> Case.argv[k + 2]]) /\ k' = k + 2 /\ UNCHANGED << c, free, ph, want, bad >>

\* -qv, -rogg2ogg, -r ogg2ogg
ShortOptions ==
    /\ ph = "parse" /\ More /\ IsOption(Arg) /\ Ch(Arg, 2) # "-"
    /\ LET known(i) == Ch(Arg, i) \in DOMAIN Short
           valued(i) == known(i) /\ Short[Ch(Arg, i)] \in Valued
           stops == { i \in 2 .. Len(Arg) : ~known(i) \/ valued(i) }
           n == IF stops = {} THEN 0 ELSE CHOOSE i \in stops : \A j \in stops : i <= j
           flags(upto) == [i \in 1 .. upto - 1 |-> [n |-> Short[Ch(Arg, i + 1)], v |-> ""]]
       IN  IF n = 0
           THEN opt' = opt \o flags(Len(Arg)) /\ k' = k + 1 /\ UNCHANGED << c, free, ph, want, bad >>
           ELSE IF ~known(n) THEN Fail("bad arguments")
           ELSE IF n < Len(Arg)
           THEN /\ opt' = opt \o flags(n - 1) \o << [n |-> Short[Ch(Arg, n)], v |-> From(Arg, n + 1)] >>
                /\ k' = k + 1 /\ UNCHANGED << c, free, ph, want, bad >>
           ELSE IF k + 1 = Len(Case.argv) THEN Fail("bad arguments")
           ELSE /\ opt' = opt \o flags(n - 1) \o << [n |-> Short[Ch(Arg, n)], v |-> Case.argv[k + 2]] >>
                /\ k' = k + 2 /\ UNCHANGED << c, free, ph, want, bad >>

Given(name) == { i \in 1 .. Len(opt) : opt[i].n = name }
Has(name)   == Given(name) # {}
Value(name) == opt[CHOOSE i \in Given(name) : \A j \in Given(name) : i <= j].v

Parsed ==
    /\ ph = "parse" /\ ~More
    /\ IF \E n \in Single : Cardinality(Given(n)) > 1 THEN Fail("bad arguments")
       ELSE IF Has("help") THEN Fail("usage")
       ELSE IF Has("version") THEN Fail("version")
       ELSE IF Len(free) # 2 THEN Fail("bad arguments")
       ELSE ph' = "files" /\ UNCHANGED << c, k, opt, free, want, bad >>

-------------------------------------------------------------------------------
(* Files and settings                                                         *)
ToStdout == free[2] = "-"

\* The extension of a file name, "" without one: ".ogg" is a name
Extension(path) ==
    LET slashes == { i \in 1 .. Len(path) : Ch(path, i) = "/" }
        name == From(path, 1 + Max(slashes \cup {0}))
        dots == { i \in 2 .. Len(name) : Ch(name, i) = "." }
    IN  IF dots = {} THEN "" ELSE From(name, Max(dots) + 1)

OpenFiles ==
    /\ ph = "files"
    /\ IF ~Case.input.exists THEN Fail("no input")
       ELSE IF ~ToStdout /\ ~Case.output.creatable THEN Fail("no output")
       ELSE ph' = "remuxer" /\ UNCHANGED << c, k, opt, free, want, bad >>

ChooseRemuxer ==
    /\ ph = "remuxer"
    /\ IF Has("remuxer") /\ Value("remuxer") # "ogg2ogg" THEN Fail("bad remuxer")
       ELSE IF ~Has("remuxer") /\ (ToStdout \/ Extension(free[2]) \notin {"ogg", "oga", "ogx"}) THEN Fail("no remuxer")
       ELSE ph' = "settings" /\ UNCHANGED << c, k, opt, free, want, bad >>

RemuxerOption(name) ==
    LET at == { i \in Given("remuxer_option") : Starts(opt[i].v, name \o "=") }
    IN  IF at = {} THEN << >> ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
                                   IN  << From(opt[i].v, Len(name) + 2) >>
BoolOk(v) == v = << >> \/ v[1] \in {"true", "false"}
Bool(v, default) == IF v = << >> THEN default ELSE v[1] = "true"

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
DigitOf(ch) == CHOOSE d \in 0 .. 9 : Digits[d + 1] = ch
AllDigits(s) == s # "" /\ \A i \in 1 .. Len(s) : \E d \in 1 .. 10 : Ch(s, i) = Digits[d]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip(From(s, 2)) ELSE s
LeqDigits(a, b) ==     \* same length
    \/ a = b
    \/ \E i \in 1 .. Len(a) : SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1) /\ DigitOf(Ch(a, i)) < DigitOf(Ch(b, i))
U32Ok(v) == v = << >> \/ LET s == Strip(v[1])
                         IN  AllDigits(v[1]) /\ (Len(s) < 10 \/ (Len(s) = 10 /\ LeqDigits(s, "4294967295")))
\* The value in decimal
U32(v) == IF v = << >> THEN "0" ELSE Strip(v[1])

RemuxerOptions == {"randomize_stream_serials", "first_stream_serial_offset", "ignore_start_sample_offset",
                   "error_on_no_vorbis_streams", "verify_ogg_page_checksums"}
VendorActions  == {"copy", "replace", "appendTag", "appendShortTag", "empty"}
CommentActions == {"copy", "delete"}

\* The defaults that the help text states
Settings == [ rnd   |-> Bool(RemuxerOption("randomize_stream_serials"), TRUE),
              off   |-> U32(RemuxerOption("first_stream_serial_offset")),
              ign   |-> Bool(RemuxerOption("ignore_start_sample_offset"), FALSE),
              errno |-> Bool(RemuxerOption("error_on_no_vorbis_streams"), TRUE),
              crc   |-> Bool(RemuxerOption("verify_ogg_page_checksums"), TRUE),
              vendor   |-> IF Has("vendor_string_action") THEN Value("vendor_string_action") ELSE "appendTag",
              comments |-> IF Has("comment_fields_action") THEN Value("comment_fields_action") ELSE "copy" ]

\* The options whose values cannot be used
BadSettings ==
    { n \in {"vendor_string_action"} : Has(n) /\ Value(n) \notin VendorActions }
    \cup { n \in {"comment_fields_action"} : Has(n) /\ Value(n) \notin CommentActions }
    \cup { n \in {"randomize_stream_serials", "ignore_start_sample_offset", "error_on_no_vorbis_streams", "verify_ogg_page_checksums"} :
              ~BoolOk(RemuxerOption(n)) }
    \cup { n \in {"first_stream_serial_offset"} : ~U32Ok(RemuxerOption(n)) }

DecideSettings ==
    /\ ph = "settings"
    /\ IF BadSettings # {}
       THEN Fail("bad setting")
       ELSE ph' = "library" /\ UNCHANGED << c, k, opt, free, want, bad >>

RunLibrary ==
    /\ ph = "library"
    /\ Assert(Case.lib.set = Settings, << "the case was recorded with other settings", c, Case.lib.set, Settings >>)
    /\ Fail(IF Case.lib.r # "ok" THEN "rejected"
            ELSE IF Case.output.full /\ Case.lib.out # << >> THEN "no space"
            ELSE "success")

-------------------------------------------------------------------------------
(* The program against that                                                   *)
Header == Contains(Case.stdout, Case.tag)
\* Every --verbose shows more, up to the second. Case.more: the lines on standard
\* error of another run with one more
Verbosity == Cardinality(Given("verbose"))

Exit ==
    /\ ph = "exit"
    /\ LET fails == want \notin {"usage", "version", "success"}
           out   == IF ToStdout THEN Case.outdata ELSE Case.output.data
       IN  bad' =
             If(Case.rc < 0 \/ Case.rc > 1, "C02", "exit status")
             \cup If(fails /\ Case.rc = 0, "C02", "exit status 0: " \o want)
             \cup If(fails /\ Case.stderr = "", "C02", "no message: " \o want)
             \cup If(want = "rejected" /\ ~Contains(Case.stderr, Case.lib.msg), "C02", "the message is not that of the library")
             \cup If(want = "bad setting" /\ ~(\E n \in BadSettings : Contains(Case.stderr, n)), "C02", "the message does not name the option")
             \cup If(~fails /\ Case.rc # 0, "C01", "failed")
             \* what is not the result is never mistaken for it
             \cup If(fails /\ want # "no space" /\ Len(free) = 2 /\ ToStdout /\ want # "bad arguments" /\ Case.outdata # << >>,
                     "C02", "output although it failed: " \o want)
             \cup If(want \in {"bad arguments", "usage", "version", "no input"} /\ ~Case.output.untouched, "C02", "output file touched: " \o want)
             \cup If(/\ want = "usage"
                     /\ ~(/\ \A n \in Flags \cup Valued : Contains(Case.stdout, "--" \o n)
                          /\ \A n \in RemuxerOptions : Contains(Case.stdout, n \o "=")
                          /\ \A n \in VendorActions \cup CommentActions \cup {"ogg2ogg"} : Contains(Case.stdout, n)), "C01", "usage")
             \cup If(want = "version" /\ ~Header, "C01", "version")
             \cup If(want = "success" /\ ~Case.output.special /\ out # Case.lib.out, "C01", "output differs from that of the library")
             \cup If(want = "success" /\ ~ToStdout /\ ~Has("quiet") /\ ~Header, "C01", "no header")
             \cup If(want = "success" /\ Has("quiet") /\ (Case.stderr # "" \/ (~ToStdout /\ Case.stdout # "")), "C01", "not quiet")
             \cup If(want = "success" /\ ~Has("quiet") /\ Case.lib.out # << >> /\ Case.stderr = "", "C01", "quiet")
             \cup If(/\ want = "success" /\ ~Has("quiet") /\ Case.more # -1
                     /\ IF Case.lib.out # << >> /\ Verbosity < 2 THEN Case.more <= Case.lines ELSE Case.more < Case.lines,
                     "C01", "no more messages when more verbose")
    /\ ph' = "done" /\ UNCHANGED << c, k, opt, free, want >>

Done == ph = "done" /\ UNCHANGED vars
Next == FirstFree \/ EndOfOptions \/ LongOption \/ ShortOptions \/ Parsed \/ OpenFiles \/ ChooseRemuxer \/ DecideSettings
        \/ RunLibrary \/ Exit \/ Done
Spec == Init /\ [][Next]_vars

Holds ==
    LET mine == { b \in bad : b[1] \in Props }
    IN  mine = {} \/ (PrintT(<< "BAD", c, k, mine >>) /\ FALSE)
Brief == [c |-> c, k |-> k, ph |-> ph, want |-> want, bad |-> bad]
==============================================================================
