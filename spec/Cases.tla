-------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* What a case asks the program to do with a generated document: one       *)
(* operation, a session of several, the assembly of sources written for    *)
(* it, or all of that on a damaged copy.                                   *)
(***************************************************************************)
EXTENDS Sources, Templates, Json, IOUtils

CONSTANT Plan           \* which operations the cases ask for

Op(op, c4, n, x) == [op |-> op, d |-> 1, c4 |-> c4, n |-> n, x |-> x]

Steps(R) == IF Chance(R[1], 50) THEN ((R[2] % 25)) - 12 ELSE Of(R[2], <<0, 127, -127, 60, -60, 13, -13, 200, -200, 1, -1>>)

NoteSteps(R) == IF Chance(R[3], 50) THEN 0 ELSE Steps(R)

\* The operations a session may perform (on decoded documents that may be shared between operations).
SessionOp(r, s, n, docs) ==
  LET op == Of(r, <<"load", "load", "encode", "export", "text", "validate", "notes", "notes-json", "transpose", "load1", "click">>
                  \o (IF Plan = "tour" THEN <<"export+assemble", "text+assemble", "export+assemble", "text+assemble">> ELSE <<>>))
      x == IF op \in {"transpose", "load1"} \/ Chance(s, 40) THEN "" ELSE "shared"
  IN [op |-> op, d |-> ((s \div 100) % docs) + 1, c4 |-> Chance(s \div 7, 50), n |-> IF op \in {"notes", "notes-json", "transpose"} THEN n ELSE 0, x |-> x]

Session(R, docs) ==
  [i \in 1..(3 + (R[1] % 6)) |-> SessionOp(Mix(R[2], 3 * i), Mix(R[3], 3 * i + 1), (Mix(R[4], 3 * i + 2) % 25) - 12, docs)]

\* Everything a program might do with a file that turns out to be damaged.
Everything(c4, R) ==
  <<Op("load", c4, 0, ""), Op("load1", c4, 0, ""), Op("encode", c4, 0, ""), Op("transpose", c4, Steps(R), ""), Op("export", c4, 0, ""), Op("export+assemble", c4, 0, ""),
    Op("text", c4, 0, ""), Op("text+assemble", c4, 0, ""), Op("validate", c4, 0, ""), Op("notes", c4, NoteSteps(R), ""), Op("notes-json", c4, NoteSteps(R), ""),
    Op("click", c4, 0, ""), Op("pieces", c4, 0, "")>>

\* The command line: the operation, another argument (a - a delimiter, or "default" to leave out the command word) and where it writes (w).
Cli(op, c4, n, x, a, w, nm) == [op |-> op, d |-> 1, c4 |-> c4, n |-> n, x |-> x, a |-> a, w |-> w, nm |-> nm]

\* What the input is called (nm): with dots, blanks, dashes or other letters, in another directory, without extension; "" is a path from the root.
Names == <<"", "in", "./in", "a.b.c", "two words", "sub/in", "sub.d/in", "sub/../in", "caf<C3><A9>", "in.mid", "x-1", "sub.d/a.b">>
NameOf(x, r) == IF Chance(r, 40) THEN "" ELSE IF x = "noext" THEN Of(r \div 7, <<"", "in", "sub.d/in", "two words">>) ELSE Of(r \div 7, Names)

Verbosity == <<"", "verbose", "debug", "both">>

CliStdout == <<"cli-text", "cli-export", "cli-notes", "cli-notes-json", "cli-tsv-stdout", "cli-click">>
CliFiles == <<"cli-text-out", "cli-export-out", "cli-notes-out", "cli-notes-json-out", "cli-tsv", "cli-tsv-table", "cli-click-out", "cli-transpose">>
CliSplits == <<"cli-split", "cli-split-default">>
CliAll == CliStdout \o CliFiles \o CliSplits

\* In the escaped form of Bytes.tla: ; , | space : paragraph sign, arrow, backslash t, tab.
Delimiters == <<"", ";", ",", "|", " ", ":", "<C2><A7>", "<E2><86><92>", "<5C>t", "<09>", "x", "#">>

CliArg(op, r) == IF op = "cli-tsv" THEN Of(r, Delimiters \o Delimiters \o BadDelimiters) ELSE IF op \in {"cli-text", "cli-text-out", "cli-split"} THEN Of(r, <<"", "default">>) ELSE ""
CliShift(op, R) == IF op = "cli-transpose" THEN Steps(R) ELSE IF op \in {"cli-notes", "cli-notes-json", "cli-notes-out", "cli-notes-json-out"} THEN NoteSteps(R) ELSE 0
CliPlace(op, r) == IF op \in {x \in Range(CliFiles) : TRUE} THEN Of(r, <<"", "", "new", "self">>) ELSE ""

CliOne(op, c4, R) == Cli(op, c4, CliShift(op, R), Of(R[6], Verbosity), CliArg(op, R[7]), CliPlace(op, R[8]), NameOf("", R[9]))

CliAny(c4, R) == CliOne(Of(R[4], CliAll), c4, R)

Ops(R) ==
  LET c4 == Chance(R[16], 25) IN
  CASE Plan \in {"load", "mutate"} -> <<Op("load", c4, 0, "")>>
    [] Plan = "load1" -> <<Op("load", c4, 0, ""), Op("load1", c4, Of(R[4], <<1, 1, 2, 3, 7, 13, 64, 512, 4096>>), Of(R[5], <<"", "eof">>))>>
    [] Plan = "encode" -> <<Op("encode", c4, 0, "")>>
    [] Plan = "transpose" -> <<Op("transpose", c4, Steps(R), "")>>
    [] Plan = "click" -> <<Op("click", c4, 0, "")>>
    [] Plan = "cli-click" -> <<CliOne(Of(R[4], <<"cli-click", "cli-click-out">>), c4, R)>>
    [] Plan = "forms" -> <<Op("forms", c4, 0, "")>>
    [] Plan = "export" -> <<Op("export", c4, 0, "")>>
    [] Plan = "json" -> <<Op("export+assemble", c4, 0, "")>>
    [] Plan = "text" -> <<Op("text", c4, 0, "")>>
    [] Plan = "textasm" -> <<Op("text+assemble", c4, 0, "")>>
    [] Plan = "validate" -> <<Op("validate", c4, 0, "")>>
    [] Plan = "notes" -> <<Op(IF Chance(R[5], 50) THEN "notes" ELSE "notes-json", c4, NoteSteps(R), "")>>
    [] Plan \in {"all", "break"} -> Everything(c4, R)
    [] Plan = "writers" -> <<Op("encode", c4, 0, ""), Op("transpose", c4, Steps(R), ""), Op("export+assemble", c4, 0, ""), Op("text+assemble", c4, 0, "")>>
    [] Plan \in {"cli-any", "cli-break"} -> <<CliAny(c4, R)>>
    [] Plan = "cli-text" -> <<CliOne(Of(R[4], <<"cli-text", "cli-text-out">>), c4, R)>>
    [] Plan = "cli-split" -> <<CliOne(Of(R[4], CliSplits), c4, R)>>
    [] Plan = "cli-export" -> <<CliOne(Of(R[4], <<"cli-export", "cli-export-out">>), c4, R)>>
    [] Plan = "cli-transpose" -> <<CliOne("cli-transpose", c4, R)>>
    [] Plan = "cli-notes" -> <<CliOne(Of(R[4], <<"cli-notes", "cli-notes-json", "cli-notes-out", "cli-notes-json-out">>), c4, R)>>
    [] Plan = "cli-tsv" -> <<CliOne(Of(R[4], <<"cli-tsv", "cli-tsv", "cli-tsv-table", "cli-tsv-stdout">>), c4, R)>>
    [] Plan = "cli-tsvs" -> <<CliOne("cli-tsv", c4, R), CliOne("cli-tsv-table", c4, R), CliOne("cli-tsv-stdout", c4, R)>>
    [] Plan = "cli-textasm" -> <<Op("cli-roundtrip-text", c4, 0, "")>>
    [] Plan = "cli-json" -> <<Op("cli-roundtrip-json", c4, 0, "")>>

NoCase == [docs |-> <<>>, ops |-> <<>>]

Damaged == {"mutate", "break", "cli-break"}

Twice(b, R, Q2) == LET m1 == Mutate(b, R) IN IF Chance(Q2[16], 30) /\ Len(m1) > 0 THEN Mutate(m1, Q2) ELSE m1

(* ---- damage to a source (in escaped form) ---------------------------------- *)

Junk == <<"999999999999", "-1", "{", "}", "[", "]", "null", "<22>", ",", ":", "delta:", "NoteOn", "4D", "<00>", "<FF>", "<0A>", "0", "true", "1e9", "%%", "MTrk", "/", " ">>

Garble(s, R) ==
  IF Len(s) = 0 THEN Of(R[1], Junk)
  ELSE LET n == Len(s)
           i == ((R[2] * 7 + R[3]) % n) + 1
           j == Min2(n, i + (R[4] % 12))
       IN CASE (R[1] % 6) = 0 -> SubSeq(s, 1, i - 1)
            [] (R[1] % 6) = 1 -> SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, n)
            [] (R[1] % 6) = 2 -> SubSeq(s, 1, j) \o SubSeq(s, i, n)
            [] (R[1] % 6) = 3 -> SubSeq(s, 1, i - 1) \o Of(R[5], Junk) \o SubSeq(s, i, n)
            [] (R[1] % 6) = 4 -> SubSeq(s, 1, i - 1) \o Of(R[5], Junk) \o SubSeq(s, j + 1, n)
            [] (R[1] % 6) = 5 -> SubSeq(s, i, n)

(* ---- layouts (see Templates.tla) --------------------------------------------- *)

Words2 == <<"*", "note ", "-- ", " | ", "%", "ff=", "<C3><A9>", "[", "] ", "(.Tag) ", "  ">>

DrawPiece(tag, r) ==
  LET a == PlainFields(tag)
      b == FancyFields(tag)
      x == Of(r \div 10, a)
      n == Of(r \div 100, <<0, 1, 2, 3, 7, 8, 12, 30>>)
      m == Of(r \div 1000, <<0, 1, 2, 3, 5, 8, 11, 20, 99>>)
  IN CASE (r % 10) < 2 -> Literal(Of(r \div 10, Words2))
       [] (r % 10) < 4 -> Piece("field", IF b = <<>> THEN x ELSE Of(r \div 10, b), 0, 0)
       [] (r % 10) < 6 -> Piece("pad", x, n, 0)
       [] (r % 10) < 8 -> Piece("cut", x, 0, m)
       [] OTHER -> Piece("both", x, n, m)

\* (A template of white space alone is no template, hence the literal in front.)
DrawKind(tag, r) == [name |-> TemplateName(tag), pieces |-> <<Literal(Of(r, <<"*", "#", "-", "<3E><3E> ", "x " >>))>> \o [i \in 1..(1 + (r % 4)) |-> DrawPiece(tag, Mix(r, i))]]

DrawHex(r) == [name |-> "hex", pieces |-> <<Literal(Of(r, <<".", "h: ", "0x">>))>> \o
  Of(r \div 10, << <<>>, <<Piece("align", "", Of(r \div 100, <<0, 1, 2, 3, 4, 6, 8, 13>>), Of(r \div 1000, <<12, 24, 42, 200>>))>>, <<Piece("align", "", Of(r \div 100, <<0, 2, 4, 9, 20>>), 300)>>,
                   <<Piece("field", ".", 0, 0)>>, <<Piece("both", ".", 30, Of(r \div 100, <<5, 24, 30, 31>>))>> >>)]

DrawEventLayout(r) == [name |-> "event", pieces |-> Of(r, <<
  <<Literal("<3E> "), Piece("pad", ".Tick", 12, 0), Piece("field", ".Delta", 0, 0), Literal(" "), Piece("call", "events", 0, 0)>>,
  <<Literal("<3E> "), Piece("call", "events", 0, 0), Piece("call", "hex", 0, 0), Piece("nl", "", 0, 0)>>,
  <<Literal("@"), Piece("cut", ".Tick", 0, 4), Literal("+"), Piece("both", ".Delta", 6, 3), Literal(":"), Piece("call", "hex", 0, 0), Piece("call", "events", 0, 0)>>,
  <<Literal("tick:"), Piece("field", ".Tick", 0, 0), Literal(" delta:"), Piece("field", ".Delta", 0, 0), Piece("nl", "", 0, 0)>> >>)]

DrawTrackLayout(r) == [name |-> "MTrk", pieces |-> Of(r, <<
  <<Literal("track "), Piece("field", ".TrackNumber", 0, 0), Piece("nl", "", 0, 0), Piece("tracks", "", 0, 0)>>,
  <<Piece("tracks", "", 0, 0), Literal("end of "), Piece("pad", ".Tag", 9, 0), Piece("field", ".Length", 0, 0), Piece("nl", "", 0, 0)>>,
  <<Literal("=="), Piece("nl", "", 0, 0)>> >>)]

DrawHeaderLayout(r) == [name |-> "MThd", pieces |-> Of(r, <<
  <<Literal("file "), Piece("field", ".Format", 0, 0), Literal("/"), Piece("pad", ".Tracks", 4, 0), Piece("field", ".PPQN", 0, 0), Piece("nl", "", 0, 0)>>,
  <<Literal("%% "), Piece("cut", ".Bytes", 0, 20), Piece("field", ".Length", 0, 0), Piece("nl", "", 0, 0)>> >>)]

AllKinds == <<"SequenceNumber", "Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName", "MIDIChannelPrefix", "MIDIPort", "EndOfTrack",
              "Tempo", "SMPTEOffset", "TimeSignature", "KeySignature", "SequencerSpecificEvent", "NoteOff", "NoteOn", "PolyphonicPressure", "Controller", "ProgramChange", "ChannelPressure",
              "PitchBend", "SysExMessage", "SysExContinuation", "SysExEscape">>

\* Some kinds (every fourth, or all), some of the rest, and a name that means nothing.
DrawLayout(R) ==
  LET ks == SelectSeq([i \in 1..Len(AllKinds) |-> [t |-> AllKinds[i], r |-> Mix(R[1], i)]], LAMBDA z : IF Chance(R[2], 30) THEN TRUE ELSE Chance(z.r, IF Chance(R[2], 60) THEN 25 ELSE 8)) IN
  [i \in 1..Len(ks) |-> DrawKind(ks[i].t, Mix(R[3], i))]
  \o (IF Chance(R[4], 35) THEN <<DrawHex(R[5])>> ELSE <<>>)
  \o (IF Chance(R[6], 30) THEN <<DrawEventLayout(R[7])>> ELSE <<>>)
  \o (IF Chance(R[8], 20) THEN <<DrawTrackLayout(R[9])>> ELSE <<>>)
  \o (IF Chance(R[10], 20) THEN <<DrawHeaderLayout(R[11])>> ELSE <<>>)
  \o (IF Chance(R[12], 30) THEN <<[name |-> Of(R[13], <<"hexx", "NoteOn", "notes", "mtrk">>), pieces |-> <<Literal("WOOT")>>]>> ELSE <<>>)

\* Files of templates that must be refused (before anything is written).
NamedTemplate(n, t) == "{<22>templates<22>: {<22>" \o n \o "<22>: <22>" \o t \o "<22>}}"
OneTemplate(t) == NamedTemplate("noteon", t)
BadTemplates == <<"{{.Tag", "x {{.Tag}", "{{shout .Tag}}", "{{end}}", "{{if .Tag}}x", "{{range}}", "{{pad 2 .Tag">>
NamedBad == LET names == <<"whatever", "hex", "event", "MTrk", "MThd", "endoftrack", "Note">> IN [i \in 1..49 |-> NamedTemplate(names[((i - 1) \div 7) + 1], BadTemplates[((i - 1) % 7) + 1])]
BadLayouts == NamedBad \o <<"", "{", "[]", "42", "{<22>templates<22>: 5}", "{<22>templates<22>: [1]}", "{<22>templates<22>: {<22>noteon<22>: 5}}", OneTemplate("{{.Tag"), OneTemplate("x {{.Tag}"), OneTemplate("{{shout .Tag}}"),
               OneTemplate("{{end}}"), OneTemplate("{{if .Tag}}x"), OneTemplate("{{range}}"), OneTemplate("{{pad 2 .Tag"), "{<22>templates<22>: {<22>hex<22>: <22>ok<22>, <22>noteon<22>: <22>{{<22>}}", "{<22>templates<22>: {}} x">>

\* Templates that only fail when they are used: the header is always printed, a track if there is one.
FailingTemplates == <<"{{.Nope}}", "{{pad}}", "x {{ellipsize .Tag}}", "{{valign .Tag}}", "{{.Tag.Nope}}", "{{template <5C><22>nowhere<5C><22>}}", "{{index .Tag 99}}">>
FailingLayouts(some) == LET of(name) == [i \in 1..Len(FailingTemplates) |-> NamedTemplate(name, FailingTemplates[i])] IN IF some THEN of("MThd") \o of("MTrk") ELSE of("MThd")

LayoutPlans == {"layouts", "cli-layouts"}
LayoutOps(R) ==
  IF Plan = "layouts" THEN <<"layout">> ELSE <<Of(R[14], <<"cli-layout", "cli-layout-out", "cli-layout-split", "cli-layout-split-default">>)>>

\* The templates are in a, the layout in meta. (w = "nolayout": the file of templates does not exist.)
LayoutCase(b, R, Q2) ==
  LET l == DrawLayout(R)
      ops == LayoutOps(Q2)
      bad == Chance(Q2[3], 12)
      gone == Plan = "cli-layouts" /\ Chance(Q2[5], 4)
      one(op) == [op |-> op, d |-> 1, c4 |-> Chance(Q2[1], 25), n |-> 0, x |-> "", a |-> IF bad THEN (IF Chance(Q2[6], 60) THEN Of(Q2[4], BadLayouts) ELSE Of(Q2[4], FailingLayouts(b[11] + b[12] > 0))) ELSE LayoutText(l), w |-> IF gone THEN "nolayout" ELSE ""]
  IN [docs |-> <<b>>, ops |-> [i \in 1..Len(ops) |-> one(ops[i])], meta |-> [i \in 1..Len(ops) |-> [ok |-> ~bad /\ ~gone, layout |-> l]]]

(* ---- a single event ------------------------------------------------------------ *)

\* "alone": what a file with one track has between its headers and its EndOfTrack; "single": an event of a file, as it is or damaged.
AloneCase(b, R, Q2) ==
  LET d == ReadFile(b, FALSE)
      ts == SelectSeq(d.tracks, LAMBDA t : t.evs # <<>>)
      t == ts[(R[6] % Len(ts)) + 1]
      ev == t.evs[(R[7] % Len(t.evs)) + 1]
      whole == Vlq(ev.delta) \o EventBytes(ev)
      case(x) == [docs |-> <<x>>, ops |-> <<Op("single", FALSE, 0, "")>>]
  IN IF Plan = "alone" THEN case(SubSeq(b, 23, Len(b) - 4))
     ELSE IF ts = <<>> THEN NoCase ELSE case(IF Chance(R[8], 20) THEN whole ELSE Twice(whole, R, Q2))

(* ---- the case ----------------------------------------------------------------- *)

SourcePlans == {"sources", "badsources", "garbled", "cli-sources", "cli-badsources"}

CliAsm(op, d, c4, x, w, nm) == [op |-> op, d |-> d, c4 |-> c4, n |-> 0, x |-> x, a |-> "", w |-> w, nm |-> nm]
AsmOp(op, d, c4, x) == [op |-> op, d |-> d, c4 |-> c4, n |-> 0, x |-> x]

SourceOps(c4, r) ==
  IF Plan \in {"cli-sources", "cli-badsources"}
  THEN LET x == Of(r \div 10, <<"txt", "txt", "asm", "noext">>) IN
       <<CliAsm(Of(r, <<"cli-asm", "cli-asm-default">>), 1, c4, x, Of(r \div 11, <<"", "new">>), NameOf(x, r \div 3)),
         CliAsm(Of(r \div 100, <<"cli-asm", "cli-asm-default">>), 2, c4, "json", Of(r \div 13, <<"", "new">>), NameOf("json", r \div 5)),
         CliAsm("cli-asm", 1, c4, "txt", "self", ""), CliAsm("cli-asm", 2, c4, "json", "self", NameOf("json", r \div 17))>>
  ELSE <<AsmOp("asmtext", 1, c4, ""), AsmOp("asmjson", 2, c4, "")>>

\* b - the file; R, Q2 - entropy.
CaseOf(b, R, Q2) ==
  IF Plan \in SourcePlans THEN
    LET c4 == Chance(R[16], 25)
        d == ReadFile(b, c4)
        tb == BadSpot(d, R, "text", c4)
        jb == BadSpot(d, Q2, "json", c4)
    IN IF Plan \in {"sources", "cli-sources"}
       THEN [docs |-> <<TextSource(d, R[1], NoBad), JsonSource(d, R[2], NoBad)>>, ops |-> SourceOps(c4, R[3]), meta |-> [x \in 1..4 |-> Proper(d)]]
       ELSE IF Plan = "garbled"
       THEN [docs |-> <<Garble(TextSource(d, R[1], NoBad), Q2), Garble(JsonSource(d, R[2], NoBad), R)>>, ops |-> SourceOps(c4, R[3]), meta |-> [x \in 1..4 |-> Improper]]
       ELSE IF tb = NoBad \/ jb = NoBad THEN NoCase
       ELSE [docs |-> <<TextSource(d, R[1], tb), JsonSource(d, R[2], jb)>>, ops |-> SourceOps(c4, R[3]), meta |-> [x \in 1..4 |-> Improper]]
  ELSE IF Plan \in LayoutPlans THEN LayoutCase(b, R, Q2)
  ELSE IF Plan \in {"alone", "single"} THEN AloneCase(b, R, Q2)
  ELSE [docs |-> <<IF Plan \in Damaged THEN Twice(b, R, Q2) ELSE b>>, ops |-> Ops(R)]

\* Several files in one session ("tour": files that can be written as text and JSON).
Sessions == {"session", "tour", "studio", "marathon", "ensemble"}

(* "studio", and "marathon" (a long session): three such files, a file with manufacturers nobody knows, a damaged file, two proper sources and two that must be refused. *)

Stranger ==
  LET packets == [x \in 1..6 |-> SysEx("SysExMessage", <<0, 113, x>>, <<1, x>>, TRUE)] \o [x \in 1..4 |-> Meta(127, <<99 + x>>, <<x>>)]
                 \o <<SysEx("SysExMessage", <<0, 32, 96>>, <<5>>, FALSE), SysEx("SysExContinuation", <<>>, <<6>>, TRUE)>>
                 \o <<Meta(89, <<-5, 1>>, <<>>), Voice(11, 3, <<0, 9>>), Voice(9, 3, <<61, 64>>), Voice(12, 3, <<7>>), Voice(9, 3, <<66, 64>>)>>
  IN FileBytes(Header(0, 1, 24), <<Append(packets, Meta(47, <<>>, <<>>))>>)

StudioFiles == <<"load", "encode", "export", "text", "validate", "notes", "notes-json", "transpose", "click", "export+assemble", "load1">>

\* A listing in a layout of one's own (which must not stay behind).
StudioLayout(s) == DrawLayout([i \in 1..16 |-> Mix(s, i)])
StudioOp(r, s, n, c4) ==
  IF Chance(r \div 3, 12) THEN [op |-> "layout", d |-> (s % 5) + 1, c4 |-> Chance(s \div 7, 50), n |-> s, x |-> "shared", a |-> IF Chance(s, 80) THEN LayoutText(StudioLayout(s)) ELSE Of(s, BadLayouts)]
  ELSE IF Chance(r, 45) THEN LET j == (s % 4) IN [op |-> <<"asmtext", "asmjson", "asmtext", "asmjson">>[j + 1], d |-> 6 + j, c4 |-> c4, n |-> 0, x |-> ""]
  ELSE LET op == Of(r \div 100, StudioFiles \o (IF (s % 5) < 3 THEN <<"text+assemble", "text+assemble">> ELSE <<>>))
       IN [op |-> op, d |-> (s % 5) + 1, c4 |-> Chance(s \div 7, 50), n |-> IF op \in {"notes", "notes-json", "transpose"} THEN n ELSE 0,
           x |-> IF op \in {"transpose", "load1"} \/ Chance(s \div 100, 40) THEN "" ELSE "shared"]

Studio(files, R) ==
  LET c4 == Chance(R[16], 25)
      d1 == ReadFile(files[1], c4)
      d2 == ReadFile(files[2], c4)
      spot == BadSpot(d1, R, "json", c4)
      ops == [x \in 1..(IF Plan = "marathon" THEN 80 ELSE 4 + (R[1] % 8)) |-> StudioOp(Mix(R[2], 3 * x), Mix(R[3], 3 * x + 1), (Mix(R[4], 3 * x + 2) % 25) - 12, c4)]
  IN [docs |-> files \o <<Stranger, SubSeq(files[3], 1, Max2(0, Len(files[3]) - 1 - (R[5] % 9))), TextSource(d1, R[6], NoBad), JsonSource(d2, R[7], NoBad),
                          Of(R[8], BadText \o [x \in 1..12 |-> BadText[Len(BadText) - (x % 4)]]), IF spot = NoBad \/ Chance(R[10], 30) THEN Of(R[9], BadJson) ELSE JsonSource(d1, R[7], spot)>>,
      ops |-> ops,
      meta |-> [x \in 1..Len(ops) |-> CASE ops[x].d = 6 -> Proper(d1) [] ops[x].d = 7 -> Proper(d2) [] ops[x].op = "layout" -> [ok |-> Chance(ops[x].n, 80), layout |-> StudioLayout(ops[x].n)] [] OTHER -> Improper]]

\* "ensemble": the same, carried out at the same time under one middle C convention and on documents of their own.
Ensemble(files, R) ==
  LET case == Studio(files, R) IN [case EXCEPT !.ops = [x \in 1..Len(case.ops) |-> [case.ops[x] EXCEPT !.c4 = Chance(R[16], 25), !.x = ""]]]

SessionOf(files, R) == IF Plan = "ensemble" THEN Ensemble(files, R) ELSE IF Plan \in {"studio", "marathon"} THEN Studio(files, R) ELSE [docs |-> files, ops |-> Session(R, Len(files))]

Show(case) == case.ops = <<>> \/ PrintT(<<"CASE", ToJson(case)>>)
=============================================================================
