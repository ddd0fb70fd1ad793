------------------------------ MODULE Templates -------------------------------
(***************************************************************************)
(* User supplied templates: the layout of a listing is made of named       *)
(* templates, and a user may replace some of them.  A template is a        *)
(* sequence of pieces - literal text, fields of what is being printed,     *)
(* padded and cut to size - and is written down in the template language   *)
(* of the program (Go's text/template) for the program to load.            *)
(*                                                                         *)
(* A layout is a sequence of [name, pieces]; whatever it does not name is  *)
(* printed as ever.                                                        *)
(***************************************************************************)
EXTENDS Render

Piece(k, x, n, m) == [k |-> k, x |-> x, n |-> n, m |-> m]
Literal(x) == Piece("lit", x, 0, 0)

(* ---- as the program reads them ------------------------------------------------ *)

JQ == "<5C><22>"     \* a quote inside a JSON string

PieceText(pc) ==
  CASE pc.k = "lit" -> pc.x
    [] pc.k = "field" -> "{{" \o pc.x \o "}}"
    [] pc.k = "pad" -> "{{pad " \o Num(pc.n) \o " " \o pc.x \o "}}"
    [] pc.k = "cut" -> "{{ellipsize " \o pc.x \o " " \o Num(pc.m) \o "}}"
    [] pc.k = "both" -> "{{pad " \o Num(pc.n) \o " (ellipsize " \o pc.x \o " " \o Num(pc.m) \o ")}}"
    [] pc.k = "call" -> "{{template " \o JQ \o pc.x \o JQ \o (CASE pc.x = "hex" -> " .Bytes" [] pc.x = "events" -> " .Event" [] OTHER -> " .") \o "}}"
    [] pc.k = "tracks" -> "{{range .Events}}{{template " \o JQ \o "event" \o JQ \o " .}}{{end}}"
    [] pc.k = "align" -> IF pc.n = 0 THEN "{{ellipsize (valign .) " \o Num(pc.m) \o "}}" ELSE "{{ellipsize (valign . " \o Num(pc.n) \o ") " \o Num(pc.m) \o "}}"
    [] pc.k = "nl" -> "<5C>n"

RECURSIVE PiecesText(_)
PiecesText(ps) == IF ps = <<>> THEN "" ELSE PieceText(ps[1]) \o PiecesText(Tail(ps))

TQ == "<22>"
LayoutText(l) == "{" \o TQ \o "templates" \o TQ \o ": {" \o Join([i \in 1..Len(l) |-> TQ \o l[i].name \o TQ \o ": " \o TQ \o PiecesText(l[i].pieces) \o TQ], ", ") \o "}}"

(* ---- what is there to be printed ------------------------------------------------ *)

TemplateName(tag) ==
  CASE tag = "SequenceNumber" -> "sequenceno" [] tag = "Text" -> "text" [] tag = "Copyright" -> "copyright" [] tag = "TrackName" -> "trackname"
    [] tag = "InstrumentName" -> "instrumentname" [] tag = "Lyric" -> "lyric" [] tag = "Marker" -> "marker" [] tag = "CuePoint" -> "cuepoint"
    [] tag = "ProgramName" -> "programname" [] tag = "DeviceName" -> "devicename" [] tag = "MIDIChannelPrefix" -> "midichannelprefix"
    [] tag = "MIDIPort" -> "midiport" [] tag = "EndOfTrack" -> "endoftrack" [] tag = "Tempo" -> "tempo" [] tag = "SMPTEOffset" -> "smpteoffset"
    [] tag = "TimeSignature" -> "timesignature" [] tag = "KeySignature" -> "keysignature" [] tag = "SequencerSpecificEvent" -> "sequencerspecificevent"
    [] tag = "NoteOff" -> "noteoff" [] tag = "NoteOn" -> "noteon" [] tag = "PolyphonicPressure" -> "polyphonicpressure" [] tag = "Controller" -> "controller"
    [] tag = "ProgramChange" -> "programchange" [] tag = "ChannelPressure" -> "channelpressure" [] tag = "PitchBend" -> "pitchbend"
    [] tag = "SysExMessage" -> "sysexmessage" [] tag = "SysExContinuation" -> "sysexcontinuation" [] tag = "SysExEscape" -> "sysexescape"

TextFieldName(tag) ==
  CASE tag = "Text" -> ".Text" [] tag = "Copyright" -> ".Copyright" [] tag = "Lyric" -> ".Lyric" [] tag = "Marker" -> ".Marker" [] tag = "CuePoint" -> ".CuePoint" [] OTHER -> ".Name"

\* The fields are those that the built-in templates use. First, fields whose text is plain ASCII, and may be padded and cut.
PlainFields(tag) ==
  <<".Tag", IF tag \in MetaTags THEN ".Type" ELSE ".Status">> \o
  (CASE tag = "SequenceNumber" -> <<".SequenceNumber">> [] tag = "MIDIChannelPrefix" -> <<".Channel">> [] tag = "MIDIPort" -> <<".Port">> [] tag = "Tempo" -> <<".Tempo">>
     [] tag = "SMPTEOffset" -> <<".Hour", ".Minute", ".Second", ".FrameRate", ".Frames", ".FractionalFrames">>
     [] tag = "TimeSignature" -> <<".Numerator", ".Denominator", ".TicksPerClick", ".ThirtySecondsPerQuarter">>
     [] tag \in {"SequencerSpecificEvent", "SysExMessage", "SysExContinuation", "SysExEscape"} -> <<".Data", ".Data">>
     [] tag \in NoteTags -> <<".Channel", ".Velocity">>
     [] tag \in {"PolyphonicPressure", "ChannelPressure"} -> <<".Channel", ".Pressure">>
     [] tag = "Controller" -> <<".Channel", ".Controller.ID", ".Value">>
     [] tag = "ProgramChange" -> <<".Channel", ".Bank", ".Program">>
     [] tag = "PitchBend" -> <<".Channel", ".Bend">>
     [] OTHER -> <<>>)

\* ... and the others.
FancyFields(tag) ==
  IF tag \in TextTags THEN <<TextFieldName(tag)>>
  ELSE CASE tag = "KeySignature" -> <<".Key">> [] tag \in {"SequencerSpecificEvent", "SysExMessage"} -> <<".Manufacturer.Name">>
         [] tag \in NoteTags -> <<".Note.Name">> [] tag = "Controller" -> <<".Controller.Name">> [] OTHER -> <<>>

FieldText(ev, x) ==
  CASE x = ".Tag" -> ev.tag
    [] x = ".Status" -> Hex2(ev.st)
    [] x = ".Type" -> Hex2(ev.ty)
    [] x = ".Data" -> HexList(ev.s)
    [] x = ".Channel" /\ ev.ch >= 0 -> Num(ev.ch)
    [] x = ".Note.Name" -> ev.name
    [] x = ".Key" -> ev.name
    [] x \in {".Manufacturer.Name", ".Controller.Name"} -> XName(ev)
    [] x = ".Bank" -> Num(ev.bank)
    [] x \in {".Minute", ".Denominator", ".Velocity", ".Value"} -> Num(ev.v[2])
    [] x \in {".Second", ".TicksPerClick"} -> Num(ev.v[3])
    [] x \in {".FrameRate", ".ThirtySecondsPerQuarter"} -> Num(ev.v[4])
    [] x = ".Frames" -> Num(ev.v[5])
    [] x = ".FractionalFrames" -> Num(ev.v[6])
    [] ev.tag \in TextTags -> TextOf(ev.s)
    [] OTHER -> Num(ev.v[1])

(* ---- what is printed -------------------------------------------------------------- *)

Cut(s, m) == IF m <= 0 THEN "" ELSE Ellipsize(s, m)
CutWidth(s, m) == IF m <= 0 THEN 0 ELSE EllipsizeWidth(s, m)

\* s - the text of the field
Shaped(pc, s) ==
  CASE pc.k = "field" -> s
    [] pc.k = "pad" -> Pad(s, pc.n)
    [] pc.k = "cut" -> Cut(s, pc.m)
    [] pc.k = "both" -> PadW(Cut(s, pc.m), CutWidth(s, pc.m), pc.n)

Named(l, name) == {i \in 1..Len(l) : l[i].name = name}
Replaces(l, name) == Named(l, name) # {}
PiecesOf(l, name) == l[CHOOSE i \in Named(l, name) : TRUE].pieces

RECURSIVE CatPieces(_, _)
CatPieces(ps, f) == IF ps = <<>> THEN "" ELSE f[1] \o CatPieces(Tail(ps), Tail(f))

KindText(l, ev) ==
  IF Replaces(l, TemplateName(ev.tag))
  THEN LET ps == PiecesOf(l, TemplateName(ev.tag)) IN
       CatPieces(ps, [i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].x ELSE Shaped(ps[i], FieldText(ev, ps[i].x))])
  ELSE Hex2(IF ev.ty >= 0 THEN ev.ty ELSE ev.st) \o " " \o (IF ev.tag = "EndOfTrack" THEN ev.tag ELSE Pad(ev.tag, 22) \o " " \o TextDetails(ev))

Aligned(raw, w) == Spaces(3 * Max2(0, w - DeltaWidth(raw))) \o HexList(raw)

HexText(l, ev) ==
  IF Replaces(l, "hex")
  THEN LET ps == PiecesOf(l, "hex") IN
       CatPieces(ps, [i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].x ELSE IF ps[i].k = "align" THEN Cut(Aligned(ev.raw, IF ps[i].n = 0 THEN 4 ELSE ps[i].n), ps[i].m) ELSE Shaped(ps[i], HexList(ev.raw))])
  ELSE HexColumn(EventHex(ev.raw), 42)

EventText(l, ev) ==
  IF Replaces(l, "event")
  THEN LET ps == PiecesOf(l, "event") IN
       CatPieces(ps, [i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].x ELSE IF ps[i].k = "nl" THEN NL
                        ELSE IF ps[i].k = "call" THEN (IF ps[i].x = "hex" THEN HexText(l, ev) ELSE KindText(l, ev) \o NL)
                        ELSE Shaped(ps[i], IF ps[i].x = ".Tick" THEN ev.tick ELSE Num(ev.delta))])
  ELSE HexText(l, ev) \o "  tick:" \o Pad(ev.tick, 9) \o "  delta:" \o Pad(Num(ev.delta), 9) \o "  " \o KindText(l, ev) \o NL

RECURSIVE CatEvents(_, _, _, _)
CatEvents(l, evs, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN EventText(l, evs[i])
  ELSE LET m == (i + j) \div 2 IN CatEvents(l, evs, i, m) \o CatEvents(l, evs, m + 1, j)

TrackIn(l, t) ==
  IF Replaces(l, "MTrk")
  THEN LET ps == PiecesOf(l, "MTrk")
           text(x) == CASE x = ".Tag" -> "MTrk" [] x = ".TrackNumber" -> Pad(Num(t.n), 2) [] x = ".Length" -> Num(t.length)
       IN CatPieces(ps, [i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].x ELSE IF ps[i].k = "nl" THEN NL ELSE IF ps[i].k = "tracks" THEN CatEvents(l, t.evs, 1, Len(t.evs)) ELSE Shaped(ps[i], text(ps[i].x))])
  ELSE NL \o HexColumn(HexList(SubSeq(t.raw, 1, Min2(Len(t.raw), 20))), 24) \o "  MTrk " \o Pad(Num(t.n), 2) \o " length:" \o Num(t.length) \o NL \o CatEvents(l, t.evs, 1, Len(t.evs))

HeaderIn(l, h) ==
  IF Replaces(l, "MThd")
  THEN LET ps == PiecesOf(l, "MThd")
           text(x) == CASE x = ".Tag" -> "MThd" [] x = ".Length" -> "6" [] x = ".Format" -> Num(h.format) [] x = ".Tracks" -> Num(h.tracks) [] x = ".PPQN" -> Num(h.ppqn) [] x = ".Bytes" -> HexList(HeaderBytes(h))
       IN CatPieces(ps, [i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].x ELSE IF ps[i].k = "nl" THEN NL ELSE Shaped(ps[i], text(ps[i].x))])
  ELSE HeaderText(h)

RECURSIVE TracksIn(_, _, _)
TracksIn(l, ts, i) == IF i > Len(ts) THEN "" ELSE TrackIn(l, ts[i]) \o TracksIn(l, ts, i + 1)

DocIn(l, d) == HeaderIn(l, d.h) \o TracksIn(l, d.tracks, 1)

PartsIn(l, d) == {[name |-> "MThd", txt |-> HeaderIn(l, d.h)]} \cup
                 {[name |-> "MTrk " \o Num(d.tracks[i].n), txt |-> TrackIn(l, d.tracks[i])] : i \in 1..Len(d.tracks)}
=============================================================================
