-------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* What the program prints for a document: the disassembly, the JSON       *)
(* export and the TSV table.  Strings are in the escaped form of Bytes.tla;*)
(* NL ends a line.                                                         *)
(***************************************************************************)
EXTENDS Smf

NL == "<0A>"

(* ---- disassembly ----------------------------------------------------------- *)

Ellipsize(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n - 1) \o ELLIPSIS
EllipsizeWidth(s, n) == Min2(Len(s), n)

\* A hex dump, ellipsized to n characters and padded to 42.
HexColumn(s, n) == PadW(Ellipsize(s, n), EllipsizeWidth(s, n), 42)

\* Hex dumps are aligned on the status byte, up to three bytes of delta.
DeltaWidth(raw) == CHOOSE k \in 1..4 : raw[k] < 128 /\ \A j \in 1..(k - 1) : raw[j] >= 128

EventHex(raw) == Spaces(3 * (3 - DeltaWidth(raw))) \o HexList(raw)

XName(ev) ==
  IF ev.tag = "Controller" THEN ControllerName(ev.v[1])
  ELSE IF ev.tag \in {"SysExMessage", "SequencerSpecificEvent"} THEN Manufacturer(ev.v).name
  ELSE ""

XRegion(ev) == IF ev.tag \in {"SysExMessage", "SequencerSpecificEvent"} THEN Manufacturer(ev.v).region ELSE ""

Num(n) == ToString(n)

TextDetails(ev) ==
  CASE ev.tag \in TextTags -> TextOf(ev.s)
    [] ev.tag \in {"SequenceNumber", "MIDIChannelPrefix", "MIDIPort"} -> Num(ev.v[1])
    [] ev.tag = "Tempo" -> "tempo:" \o Num(ev.v[1])
    [] ev.tag = "SMPTEOffset" -> Join([i \in 1..6 |-> Num(ev.v[i])], " ")
    [] ev.tag = "TimeSignature" -> Num(ev.v[1]) \o "/" \o Num(ev.v[2]) \o ", " \o Num(ev.v[3]) \o " ticks per click, " \o Num(ev.v[4]) \o "/32 per quarter"
    [] ev.tag = "KeySignature" -> ev.name
    [] ev.tag \in {"SequencerSpecificEvent", "SysExMessage"} -> XName(ev) \o ", " \o HexList(ev.s)
    [] ev.tag \in {"SysExContinuation", "SysExEscape"} -> HexList(ev.s)
    [] ev.tag \in NoteTags -> "channel:" \o Pad(Num(ev.ch), 2) \o " note:" \o ev.name \o ", velocity:" \o Num(ev.v[2])
    [] ev.tag \in {"PolyphonicPressure", "ChannelPressure"} -> "channel:" \o Pad(Num(ev.ch), 2) \o " pressure:" \o Num(ev.v[1])
    [] ev.tag = "Controller" -> "channel:" \o Pad(Num(ev.ch), 2) \o " " \o Num(ev.v[1]) \o "/" \o XName(ev) \o ", value:" \o Num(ev.v[2])
    [] ev.tag = "ProgramChange" -> "channel:" \o Pad(Num(ev.ch), 2) \o " bank:" \o Num(ev.bank) \o ", program:" \o Num(ev.v[1])
    [] ev.tag = "PitchBend" -> "channel:" \o Pad(Num(ev.ch), 2) \o " bend:" \o Num(ev.v[1])

TextLine(ev) ==
  HexColumn(EventHex(ev.raw), 42) \o "  tick:" \o Pad(ev.tick, 9) \o "  delta:" \o Pad(Num(ev.delta), 9) \o "  "
    \o Hex2(IF ev.ty >= 0 THEN ev.ty ELSE ev.st) \o " "
    \o (IF ev.tag = "EndOfTrack" THEN ev.tag ELSE Pad(ev.tag, 22) \o " " \o TextDetails(ev)) \o NL

HeaderText(h) ==
  HexColumn(HexList(HeaderBytes(h)), 42) \o "  MThd length:6, format:" \o Num(h.format) \o ", tracks:" \o Num(h.tracks) \o ", "
    \o (IF h.smpte THEN "SMPTE:" \o Num(h.fps) \o " fps," \o Num(h.sub) \o " sub-frames" ELSE "metrical time:" \o Num(h.ppqn) \o " ppqn") \o NL

\* Concatenates the strings f(1) .. f(n), dividing the range so that long documents are not quadratic.
RECURSIVE CatLines(_, _, _)
CatLines(evs, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN TextLine(evs[i])
  ELSE LET m == (i + j) \div 2 IN CatLines(evs, i, m) \o CatLines(evs, m + 1, j)

TrackText(t) ==
  NL \o HexColumn(HexList(SubSeq(t.raw, 1, Min2(Len(t.raw), 20))), 24) \o "  MTrk " \o Pad(Num(t.n), 2) \o " length:" \o Num(t.length) \o NL
     \o CatLines(t.evs, 1, Len(t.evs))

RECURSIVE TracksText(_, _)
TracksText(ts, i) == IF i > Len(ts) THEN "" ELSE TrackText(ts[i]) \o TracksText(ts, i + 1)

DocText(d) == HeaderText(d.h) \o TracksText(d.tracks, 1)

\* The files that --split writes: one for the header, one per track.
DocParts(d) == {[name |-> "MThd", txt |-> HeaderText(d.h)]} \cup
               {[name |-> "MTrk " \o Num(d.tracks[i].n), txt |-> TrackText(d.tracks[i])] : i \in 1..Len(d.tracks)}

(* ---- JSON export, as a set of path=value strings ------------------------------ *)

RECURSIVE NumRange(_, _, _)
NumRange(s, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN Num(s[i])
  ELSE LET m == (i + j) \div 2 IN NumRange(s, i, m) \o " " \o NumRange(s, m + 1, j)
NumList(s) == NumRange(s, 1, Len(s))

JNum(p, n) == p \o "=" \o Num(n)
JStr(p, s) == p \o "='" \o s \o "'"
JArr(p, s) == p \o "=[" \o NumList(s) \o "]"
JBool(p, x) == p \o "=" \o (IF x THEN "true" ELSE "false")

TextField(tag) ==
  CASE tag = "Text" -> "text" [] tag = "Copyright" -> "copyright" [] tag = "Lyric" -> "lyric" [] tag = "Marker" -> "marker"
    [] tag = "CuePoint" -> "cuepoint" [] OTHER -> "name"

EventJson(p, ev) ==
  {JStr(p \o "/tag", ev.tag), JNum(p \o "/delta", ev.delta), JNum(p \o "/status", ev.st)}
  \cup (IF ev.ty >= 0 THEN {JNum(p \o "/type", ev.ty)} ELSE {})
  \cup (IF ev.ch >= 0 THEN {JNum(p \o "/channel", ev.ch)} ELSE {})
  \cup (CASE ev.tag \in TextTags -> {JStr(p \o "/" \o TextField(ev.tag), TextOf(Utf8Fix(ev.s)))}
          [] ev.tag = "SequenceNumber" -> {JNum(p \o "/sequence-number", ev.v[1])}
          [] ev.tag = "MIDIChannelPrefix" -> {JNum(p \o "/channel", ev.v[1])}
          [] ev.tag = "MIDIPort" -> {JNum(p \o "/port", ev.v[1])}
          [] ev.tag = "EndOfTrack" -> {}
          [] ev.tag = "Tempo" -> {JNum(p \o "/tempo", ev.v[1])}
          [] ev.tag = "SMPTEOffset" ->
               {JNum(p \o "/hour", ev.v[1]), JNum(p \o "/minute", ev.v[2]), JNum(p \o "/second", ev.v[3]),
                JNum(p \o "/frame-rate", ev.v[4]), JNum(p \o "/frames", ev.v[5]), JNum(p \o "/fractional-frames", ev.v[6])}
          [] ev.tag = "TimeSignature" ->
               {JNum(p \o "/numerator", ev.v[1]), JNum(p \o "/denominator", ev.v[2]),
                JNum(p \o "/ticks-per-click", ev.v[3]), JNum(p \o "/thirty-seconds-per-quarter", ev.v[4])}
          [] ev.tag = "KeySignature" ->
               {JNum(p \o "/accidentals", ev.v[1]), JNum(p \o "/key-type", ev.v[2]), JStr(p \o "/key", ev.name)}
          [] ev.tag \in {"SequencerSpecificEvent", "SysExMessage"} ->
               {JArr(p \o "/manufacturer/id", ev.v), JStr(p \o "/manufacturer/region", XRegion(ev)), JStr(p \o "/manufacturer/name", XName(ev)),
                JArr(p \o "/data", ev.s)} \cup (IF ev.tag = "SysExMessage" THEN {JBool(p \o "/single", ev.f)} ELSE {})
          [] ev.tag = "SysExContinuation" -> {JArr(p \o "/data", ev.s), JBool(p \o "/end", ev.f)}
          [] ev.tag = "SysExEscape" -> {JArr(p \o "/data", ev.s)}
          [] ev.tag \in NoteTags ->
               {JNum(p \o "/note/value", ev.v[1]), JStr(p \o "/note/name", ev.name), JStr(p \o "/note/alias", ev.alias), JNum(p \o "/velocity", ev.v[2])}
          [] ev.tag \in {"PolyphonicPressure", "ChannelPressure"} -> {JNum(p \o "/pressure", ev.v[1])}
          [] ev.tag = "Controller" ->
               {JNum(p \o "/controller/id", ev.v[1]), JStr(p \o "/controller/name", XName(ev)), JNum(p \o "/value", ev.v[2])}
          [] ev.tag = "ProgramChange" -> {JNum(p \o "/bank", ev.bank), JNum(p \o "/program", ev.v[1])}
          [] ev.tag = "PitchBend" -> {JNum(p \o "/bend", ev.v[1])})

HeaderJson(h) ==
  {JStr("/header/Tag", "MThd"), JNum("/header/Length", 6), JNum("/header/Format", h.format), JNum("/header/Tracks", h.tracks),
   JNum("/header/Division", h.division), JNum("/header/PPQN", h.ppqn), JBool("/header/SMPTETimeCode", h.smpte),
   JNum("/header/SubFrames", h.sub), JNum("/header/FPS", h.fps), JBool("/header/DropFrame", h.drop)}

TrackJson(i, t) ==
  LET p == "/tracks/" \o Num(i - 1) IN
  {JStr(p \o "/tag", "MTrk"), JNum(p \o "/track-number", t.n)}
  \cup (IF t.evs = <<>> THEN {p \o "/events=[]"}
        ELSE UNION {EventJson(p \o "/events/" \o Num(j - 1) \o "/event", t.evs[j]) : j \in 1..Len(t.evs)})

DocJson(d) ==
  HeaderJson(d.h) \cup (IF d.tracks = <<>> THEN {"/tracks=[]"} ELSE UNION {TrackJson(i, d.tracks[i]) : i \in 1..Len(d.tracks)})

(* ---- TSV ----------------------------------------------------------------------- *)

TsvHeader == <<"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details">>

Pad2(n) == IF n < 10 THEN "0" \o Num(n) ELSE Num(n)

TsvDetails(ev) ==
  CASE ev.tag \in TextTags -> TextOf(ev.s)
    [] ev.tag \in {"SequenceNumber", "MIDIChannelPrefix", "MIDIPort", "Tempo", "PolyphonicPressure", "ChannelPressure", "PitchBend"} -> Num(ev.v[1])
    [] ev.tag = "EndOfTrack" -> ""
    [] ev.tag = "SMPTEOffset" -> "offset " \o Pad2(ev.v[1]) \o ":" \o Pad2(ev.v[2]) \o ":" \o Pad2(ev.v[3]) \o "  frame rate "
                                  \o Num(ev.v[4]) \o ":" \o Num(ev.v[5]) \o ":" \o Num(ev.v[6])
    [] ev.tag = "TimeSignature" -> Num(ev.v[1]) \o "/" \o Num(ev.v[2]) \o ", " \o Num(ev.v[3]) \o " ticks/click, " \o Num(ev.v[4]) \o " 32nds/quarter"
    [] ev.tag = "KeySignature" -> ev.name
    [] ev.tag = "SequencerSpecificEvent" -> XName(ev) \o " [" \o HexList(ev.s) \o "]"
    [] ev.tag \in NoteTags -> ev.name
    [] ev.tag = "Controller" -> Num(ev.v[1]) \o ":" \o XName(ev) \o ", " \o Num(ev.v[2])
    [] ev.tag = "ProgramChange" -> Num(ev.bank) \o ", " \o Num(ev.v[1])
    [] ev.tag = "SysExMessage" -> "[" \o NumList(ev.v) \o "]:" \o XRegion(ev) \o ":" \o XName(ev) \o ", " \o HexList(ev.s)
    [] ev.tag \in {"SysExContinuation", "SysExEscape"} -> HexList(ev.s)

TsvFields(ev) ==
  <<ev.tick, Num(ev.delta), ev.tag, IF ev.ch >= 0 THEN Num(ev.ch) ELSE "",
    IF ev.tag \in NoteTags THEN Num(ev.v[1]) ELSE "", IF ev.tag \in NoteTags THEN Num(ev.v[2]) ELSE "", TsvDetails(ev)>>

TsvBlank == <<"", "", "", "", "", "", "">>

RECURSIVE TsvRow(_, _, _)
TsvRow(ts, i, r) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF r = 0 THEN TsvHeader ELSE IF r <= Len(ts[i].evs) THEN TsvFields(ts[i].evs[r]) ELSE TsvBlank) \o TsvRow(ts, i + 1, r)

Longest(ts) == IF ts = <<>> THEN 0 ELSE CHOOSE n \in {Len(ts[i].evs) : i \in 1..Len(ts)} : \A i \in 1..Len(ts) : Len(ts[i].evs) <= n

\* The table: a row of titles and then one row per event, tracks side by side.
TsvTable(d) == [r \in 1..(Longest(d.tracks) + 1) |-> TsvRow(d.tracks, 1, r - 1)]

\* The file: the same with a line of titles in front. (A document without tracks has an empty table.)
TsvFile(d) == <<TsvHeader>> \o (IF d.tracks = <<>> THEN <<>> ELSE TsvTable(d))

RECURSIVE NoSpaces(_)
NoSpaces(s) ==
  IF Len(s) = 0 \/ s = " " THEN "" ELSE IF Len(s) = 1 THEN s
  ELSE LET h == Len(s) \div 2 IN NoSpaces(SubSeq(s, 1, h)) \o NoSpaces(SubSeq(s, h + 1, Len(s)))

RECURSIVE CatFields(_, _)
CatFields(row, i) == IF i > Len(row) THEN "" ELSE NoSpaces(row[i]) \o CatFields(row, i + 1)

\* A fixed width table, compared without its padding.
RECURSIVE CatRows(_, _)
CatRows(t, r) == IF r > Len(t) THEN "" ELSE CatFields(t[r], 1) \o NL \o CatRows(t, r + 1)

TsvWords(d) == CatRows(TsvTable(d), 1)

\* The cells of a fixed width table, which can be told apart unless one of them breaks a line.
RECURSIVE Trimmed(_)
Trimmed(s) ==
  IF Len(s) = 0 THEN "" ELSE IF SubSeq(s, 1, 1) = " " THEN Trimmed(SubSeq(s, 2, Len(s)))
  ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s

TsvCells(d) == LET t == TsvTable(d) IN [r \in 1..Len(t) |-> [k \in 1..Len(t[r]) |-> Trimmed(t[r][k])]]
TsvOneLine(d) == \A i \in 1..Len(d.tracks) : \A j \in 1..Len(d.tracks[i].evs) : d.tracks[i].evs[j].tag \in TextTags => 10 \notin Range(d.tracks[i].evs[j].s)

\* No delimiters: the quote, line ends, what is no character.
BadDelimiters == <<"<22>", "<0A>", "<0D>", "<FF>", "<C3>">>
=============================================================================
