------------------------------- MODULE Sources -------------------------------
(***************************************************************************)
(* Assembly sources: the ways in which a document can be written down as   *)
(* text or JSON for the assembler, and the ways in which a source can be   *)
(* wrong.  Everything is in the escaped form of Bytes.tla.                 *)
(*                                                                         *)
(* A source is proper exactly when every value in it is one that a MIDI    *)
(* file can hold; a proper source denotes the document it was written for. *)
(***************************************************************************)
EXTENDS Gen, Render

(* ---- small variations ---------------------------------------------------- *)

\* Some white space (at least one character), and possibly none.
Gap(r) == Of(r, <<" ", "  ", "      ", "<09>", " <09> ", " ", " ">>)
Loose(r) == Of(r, <<"", " ", "  ", "<09>", " ">>)

Zeros(r) == IF Chance(r, 8) THEN Of(r \div 100, <<"0", "00">>) ELSE ""

LowerHex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexDenseRange(_, _, _, _)
HexDenseRange(s, i, j, sep) ==
  IF i > j THEN "" ELSE IF i = j THEN LowerHex[(s[i] \div 16) + 1] \o LowerHex[(s[i] % 16) + 1]
  ELSE LET m == (i + j) \div 2 IN HexDenseRange(s, i, m, sep) \o sep \o HexDenseRange(s, m + 1, j, sep)
HexDense(s, sep) == HexDenseRange(s, 1, Len(s), sep)

HexStyle(r, s) == IF Chance(r, 60) THEN HexList(s) ELSE HexDense(s, Of(r, <<"", " ", "  ">>))

(* ---- text ------------------------------------------------------------------ *)

\* A note can be spelled in several ways: as in its key, with sharps, with flats, E and F also as F flat and E sharp, and C and B as the B sharp
\* of the octave below and the C flat of the octave above. (The octave is the one in the name the note has in its key.)
Octaves == <<"-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10">>
Octave(name) == SubSeq(name, IF SubSeq(name, Len(name) - 1, Len(name) - 1) = "-" THEN Len(name) - 1 ELSE Len(name), Len(name))
Neighbour(o, by) == Octaves[(CHOOSE x \in 1..Len(Octaves) : Octaves[x] = o) + by]
Spelling(ev, r) ==
  LET n == ev.v[1] % 12
      o == Octave(ev.name)
  IN IF Chance(r, 50) \/ ev.v[1] > 127 THEN ev.name
     ELSE CASE n = 4 -> "F" \o FLAT \o o
            [] n = 5 -> "E" \o SHARP \o o
            [] n = 0 -> "B" \o SHARP \o Neighbour(o, -1)
            [] n = 11 -> "C" \o FLAT \o Neighbour(o, 1)
            [] OTHER -> (IF Chance(r \div 100, 50) THEN SharpName ELSE FlatName)[n + 1] \o o

\* What follows the tag. r seeds the white space.
SrcDetails(ev, r) ==
  LET g(i) == Gap(Mix(r, i))
      z(i) == Loose(Mix(r, i + 20))
      n(x, i) == Zeros(Mix(r, i + 40)) \o Num(x)
      voice == g(1) \o "channel:" \o n(ev.ch, 1) \o g(2)
  IN CASE ev.tag \in TextTags -> g(1) \o TextOf(ev.s)
       [] ev.tag \in {"SequenceNumber", "MIDIChannelPrefix", "MIDIPort"} -> g(1) \o n(ev.v[1], 1)
       [] ev.tag = "EndOfTrack" -> z(1)
       [] ev.tag = "Tempo" -> g(1) \o "tempo:" \o n(ev.v[1], 1)
       [] ev.tag = "SMPTEOffset" -> g(1) \o n(ev.v[1], 1) \o g(2) \o n(ev.v[2], 2) \o g(3) \o n(ev.v[3], 3) \o g(4) \o n(ev.v[4], 4) \o g(5) \o n(ev.v[5], 5) \o g(6) \o n(ev.v[6], 6)
       [] ev.tag = "TimeSignature" -> g(1) \o n(ev.v[1], 1) \o "/" \o Num(ev.v[2]) \o "," \o z(1) \o " " \o n(ev.v[3], 3) \o " ticks per click," \o z(2) \o n(ev.v[4], 4) \o "/32 per quarter"
       [] ev.tag = "KeySignature" -> g(1) \o ev.name
       [] ev.tag \in {"SequencerSpecificEvent", "SysExMessage"} -> g(1) \o XName(ev) \o "," \o z(1) \o HexStyle(Mix(r, 9), ev.s) \o z(2)
       [] ev.tag \in {"SysExContinuation", "SysExEscape"} -> g(1) \o HexStyle(Mix(r, 9), ev.s) \o z(2)
       [] ev.tag \in NoteTags -> voice \o "note:" \o Spelling(ev, Mix(r, 12)) \o "," \o z(1) \o "velocity:" \o n(ev.v[2], 2)
       [] ev.tag \in {"PolyphonicPressure", "ChannelPressure"} -> voice \o "pressure:" \o n(ev.v[1], 2)
       [] ev.tag = "Controller" -> voice \o n(ev.v[1], 2) \o (IF Chance(Mix(r, 11), 60) THEN "/" \o XName(ev) ELSE "") \o "," \o z(1) \o "value:" \o n(ev.v[2], 3)
       [] ev.tag = "ProgramChange" -> voice \o "bank:" \o n(ev.bank, 2) \o "," \o z(1) \o "program:" \o n(ev.v[1], 3)
       [] ev.tag = "PitchBend" -> voice \o "bend:" \o n(ev.v[1], 2)

\* A line for an event: with or without the columns the disassembler prints in front. delta is given as text.
SrcLine(ev, delta, r) ==
  LET kind == Mix(r, 71) % 10 IN
  (CASE kind < 4 -> ""
     [] kind < 6 -> Gap(Mix(r, 72))
     [] kind < 8 -> HexColumn(EventHex(<<0, 144, 60>>), 42) \o "  tick:" \o Num(Mix(r, 73) % 5000) \o "   "
     [] OTHER -> "tick:" \o Num(Mix(r, 73) % 5000) \o Gap(Mix(r, 74)))
  \o "delta:" \o delta \o Gap(Mix(r, 76))
  \o (IF Chance(Mix(r, 77), 60) THEN Hex2(IF ev.ty >= 0 THEN ev.ty ELSE ev.st) \o Gap(Mix(r, 78)) ELSE "")
  \o ev.tag \o SrcDetails(ev, r) \o NL

Comments == <<"%% a comment", "%%", "%% MTrk 1", "%% MThd format:7", "%% delta:12 90 NoteOn channel:99 note:X, velocity:1", "%%  ", "%% EndOfTrack">>
Blanks == <<"", "   ", "<09>", " <09> ">>

\* Lines that mean nothing.
Filler(r) ==
  IF Chance(r, 80) THEN ""
  ELSE IF Chance(r \div 100, 50) THEN Of(r \div 1000, Comments) \o NL
  ELSE Of(r \div 1000, Blanks) \o NL

SrcHeader(h, r) ==
  (IF Chance(Mix(r, 1), 30) THEN HexColumn(HexList(HeaderBytes(h)), 42) ELSE "") \o Loose(Mix(r, 2)) \o "MThd" \o Gap(Mix(r, 3))
  \o (IF Chance(Mix(r, 4), 50) THEN "length:6, " ELSE "") \o "format:" \o Num(h.format) \o ","
  \o (IF Chance(Mix(r, 5), 50) THEN " tracks:" \o Num(Mix(r, 6) % 20) \o "," ELSE "") \o Gap(Mix(r, 7))
  \o (IF h.smpte THEN "SMPTE:" \o Num(h.fps) \o Loose(Mix(r, 8)) \o "fps," \o Loose(Mix(r, 9)) \o Num(h.sub) \o Loose(Mix(r, 10)) \o "sub-frames"
      ELSE "metrical" \o Of(Mix(r, 11), <<" ", "-", "", " ">>) \o "time:" \o Num(h.ppqn) \o Loose(Mix(r, 12)) \o "ppqn") \o NL

SrcTrackHeader(r) == Of(r, <<"MTrk", "MTrk 0 length:17", "  MTrk", "4D 54 72 6B 00 00 00 10" \o ELLIPSIS \o "   MTrk 3  length:16", "<09>MTrk  ">>) \o NL

\* bad: [t, e, ev, delta] - event e of track t is to be written as ev with the given delta.
NoBad == [t |-> 0, e |-> 0, ev |-> NoEvent, delta |-> ""]

RECURSIVE SrcEvents(_, _, _, _, _, _)
SrcEvents(evs, t, i, j, r, bad) ==
  IF i > j THEN ""
  ELSE IF i = j THEN
    LET q == Mix(r, 100 * t + i) IN
    Filler(Mix(q, 90)) \o (IF bad.t = t /\ bad.e = i THEN SrcLine(bad.ev, bad.delta, q) ELSE SrcLine(evs[i], Zeros(Mix(q, 75)) \o Num(evs[i].delta), q))
  ELSE LET m == (i + j) \div 2 IN SrcEvents(evs, t, i, m, r, bad) \o SrcEvents(evs, t, m + 1, j, r, bad)

RECURSIVE SrcTracks(_, _, _, _)
SrcTracks(ts, t, r, bad) ==
  IF t > Len(ts) THEN ""
  ELSE Filler(Mix(r, 7 * t)) \o SrcTrackHeader(Mix(r, 7 * t + 1)) \o SrcEvents(ts[t].evs, t, 1, Len(ts[t].evs), r, bad) \o SrcTracks(ts, t + 1, r, bad)

Preamble(r) == IF Chance(r, 75) THEN "" ELSE Of(r \div 100, <<"some notes about the piece" \o NL, "%% MThd" \o NL, NL \o NL, "delta:5 Text MThd" \o NL>>)

TextSource(d, r, bad) == Preamble(Mix(r, 500)) \o SrcHeader(d.h, Mix(r, 501)) \o SrcTracks(d.tracks, 1, r, bad) \o Filler(Mix(r, 502))

(* ---- JSON ------------------------------------------------------------------- *)

DQ == "<22>"
JsonChars == [b \in Byte |->
  IF b = 34 THEN "<5C><22>" ELSE IF b = 92 THEN "<5C><5C>"
  ELSE IF b < 32 THEN "<5C>u00" \o Hex2(b) ELSE CharTab[b]]

RECURSIVE JsonTextR(_)
JsonTextR(s) ==
  IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN JsonChars[s[1]]
  ELSE LET m == Len(s) \div 2 IN JsonTextR(SubSeq(s, 1, m)) \o JsonTextR(SubSeq(s, m + 1, Len(s)))

JsonText(s) == DQ \o JsonTextR(s) \o DQ
JsonStr(s) == DQ \o s \o DQ

RECURSIVE JsonNumRange(_, _, _)
JsonNumRange(s, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN Num(s[i])
  ELSE LET m == (i + j) \div 2 IN JsonNumRange(s, i, m) \o ", " \o JsonNumRange(s, m + 1, j)
JsonNums(s) == JsonNumRange(s, 1, Len(s))

Field(k, v) == DQ \o k \o DQ \o ":" \o v

\* The fields of an event: the ones that matter, and then ones the assembler can do without.
EventFields2(ev, delta) ==
  <<Field("tag", JsonStr(ev.tag)), Field("delta", delta)>> \o
  (CASE ev.tag \in TextTags -> <<Field(TextField(ev.tag), JsonText(ev.s))>>
     [] ev.tag = "SequenceNumber" -> <<Field("sequence-number", Num(ev.v[1]))>>
     [] ev.tag = "MIDIChannelPrefix" -> <<Field("channel", Num(ev.v[1]))>>
     [] ev.tag = "MIDIPort" -> <<Field("port", Num(ev.v[1]))>>
     [] ev.tag = "EndOfTrack" -> <<>>
     [] ev.tag = "Tempo" -> <<Field("tempo", Num(ev.v[1]))>>
     [] ev.tag = "SMPTEOffset" ->
          <<Field("hour", Num(ev.v[1])), Field("minute", Num(ev.v[2])), Field("second", Num(ev.v[3])),
            Field("frame-rate", Num(ev.v[4])), Field("frames", Num(ev.v[5])), Field("fractional-frames", Num(ev.v[6]))>>
     [] ev.tag = "TimeSignature" ->
          <<Field("numerator", Num(ev.v[1])), Field("denominator", Num(ev.v[2])),
            Field("ticks-per-click", Num(ev.v[3])), Field("thirty-seconds-per-quarter", Num(ev.v[4]))>>
     [] ev.tag = "KeySignature" -> <<Field("accidentals", Num(ev.v[1])), Field("key-type", Num(ev.v[2]))>>
     [] ev.tag = "SequencerSpecificEvent" ->
          <<Field("manufacturer", "{" \o Field("id", "[" \o JsonNums(ev.v) \o "]") \o "}"), Field("data", "[" \o JsonNums(ev.s) \o "]")>>
     [] ev.tag = "SysExMessage" ->
          <<Field("manufacturer", "{" \o Field("id", "[" \o JsonNums(ev.v) \o "]") \o "}"), Field("data", "[" \o JsonNums(ev.s) \o "]"),
            Field("single", IF ev.f THEN "true" ELSE "false")>>
     [] ev.tag \in {"SysExContinuation", "SysExEscape"} -> <<Field("data", "[" \o JsonNums(ev.s) \o "]")>>
     [] ev.tag \in NoteTags ->
          <<Field("channel", Num(ev.ch)), Field("note", "{" \o Field("value", Num(ev.v[1])) \o "}"), Field("velocity", Num(ev.v[2]))>>
     [] ev.tag \in {"PolyphonicPressure", "ChannelPressure"} -> <<Field("channel", Num(ev.ch)), Field("pressure", Num(ev.v[1]))>>
     [] ev.tag = "Controller" ->
          <<Field("channel", Num(ev.ch)), Field("controller", "{" \o Field("id", Num(ev.v[1])) \o "}"), Field("value", Num(ev.v[2]))>>
     [] ev.tag = "ProgramChange" -> <<Field("channel", Num(ev.ch)), Field("bank", Num(ev.bank)), Field("program", Num(ev.v[1]))>>
     [] ev.tag = "PitchBend" -> <<Field("channel", Num(ev.ch)), Field("bend", Num(ev.v[1]))>>)

Extras(ev, r) ==
  (IF Chance(Mix(r, 1), 50) THEN <<Field("status", Num(ev.st))>> ELSE <<>>) \o
  (IF Chance(Mix(r, 2), 50) /\ ev.ty >= 0 THEN <<Field("type", Num(ev.ty))>> ELSE <<>>) \o
  (IF Chance(Mix(r, 3), 15) THEN <<Field("remark", JsonStr("NoteOff"))>> ELSE <<>>)

Rotate(s, n) == LET k == n % Len(s) IN SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)

JsonEvent(ev, delta, r) ==
  "{" \o Field("event", "{" \o Join(Rotate(EventFields2(ev, delta) \o Extras(ev, r), Mix(r, 4)), Of(r, <<", ", ",", "," \o NL, " ,  ">>)) \o "}") \o "}"

RECURSIVE JsonEvents(_, _, _, _, _, _)
JsonEvents(evs, t, i, j, r, bad) ==
  IF i > j THEN ""
  ELSE IF i = j THEN
    LET q == Mix(r, 100 * t + i) IN
    (IF i > 1 THEN "," \o NL ELSE "") \o (IF bad.t = t /\ bad.e = i THEN JsonEvent(bad.ev, bad.delta, q) ELSE JsonEvent(evs[i], Num(evs[i].delta), q))
  ELSE LET m == (i + j) \div 2 IN JsonEvents(evs, t, i, m, r, bad) \o JsonEvents(evs, t, m + 1, j, r, bad)

JsonTrack(t, k, r, bad) ==
  "{" \o Join(Rotate(<<Field("tag", JsonStr("MTrk")), Field("track-number", Num(t.n)), Field("events", "[" \o JsonEvents(t.evs, k, 1, Len(t.evs), r, bad) \o "]")>>, Mix(r, k)), ", ") \o "}"

RECURSIVE JsonTracks(_, _, _, _)
JsonTracks(ts, k, r, bad) == IF k > Len(ts) THEN "" ELSE (IF k > 1 THEN "," ELSE "") \o JsonTrack(ts[k], k, r, bad) \o JsonTracks(ts, k + 1, r, bad)

JsonHeader(h, r) ==
  "{" \o Join(Rotate(<<Field("tag", JsonStr("MThd")), Field("format", Num(h.format))>>
                     \o (IF h.smpte THEN <<Field("SMPTETimeCode", "true"), Field("division", Num(h.division))>> ELSE <<Field("PPQN", Num(h.ppqn))>>)
                     \o (IF Chance(Mix(r, 1), 40) THEN <<Field("Tracks", Num(Mix(r, 2) % 20)), Field("length", "6")>> ELSE <<>>), Mix(r, 3)), ", ") \o "}"

JsonSource(d, r, bad) ==
  "{" \o Join(Rotate(<<Field("header", JsonHeader(d.h, r)), Field("tracks", "[" \o JsonTracks(d.tracks, 1, r, bad) \o "]")>>, Mix(r, 9)), "," \o NL) \o "}" \o Of(r, <<"", NL, "  ">>)

(* ---- sources that must be refused -------------------------------------------- *)

\* An event with one value no MIDI file can hold; form is "text" or "json".
BadKey(r, form) ==
  IF form = "text" THEN [Meta(89, <<0, 0>>, <<>>) EXCEPT !.name = Of(r, <<"G" \o SHARP \o " major", "F" \o FLAT \o " major", "F" \o FLAT \o " minor", "B" \o SHARP \o " major", "E" \o SHARP \o " minor", "H major", "C dorian">>)]
  ELSE Meta(89, Of(r, << <<8, 0>>, <<-8, 0>>, <<8, 1>>, <<-8, 1>>, <<0, 2>>, <<127, 0>>, <<-128, 1>> >>), <<>>)

Twist(ev, i, x) == [ev EXCEPT !.v = [@ EXCEPT ![i] = x]]

\* The values just outside each range, and further out.
BadEvent(r, s, form, c4) ==
  LET ch == s % 16
      named(ev) == [ev EXCEPT !.name = NoteName(ev.v[1], FALSE, c4)]
      smpte == Meta(84, <<1, 2, 3, 25, 4, 5>>, <<>>)
      tsig == Meta(88, <<4, 4, 24, 8>>, <<>>)
  IN CASE r % 22 = 0 -> Meta(0, <<Of(s, <<65536, 65537, 100000>>)>>, <<>>)
       [] r % 22 = 1 -> Meta(32, <<Of(s, <<16, 17, 127, 255, 256, 272>>)>>, <<>>)
       [] r % 22 = 2 -> Meta(33, <<Of(s, <<128, 129, 255, 256, 257>>)>>, <<>>)
       [] r % 22 = 3 -> Meta(81, <<Of(s, <<16777216, 16777217, 33554432, 2147483647>>)>>, <<>>)
       [] r % 22 = 4 -> Twist(smpte, 1, Of(s, <<25, 31, 32, 255, 256>>))
       [] r % 22 = 5 -> Twist(smpte, 2 + (s % 2), Of(s, <<60, 61, 255, 256>>))
       [] r % 22 = 6 -> Twist(smpte, 4, Of(s, <<0, 23, 26, 28, 31, 255>>))
       [] r % 22 = 7 -> Twist(smpte, 5, Of(s, <<25, 26, 255, 256>>))
       [] r % 22 = 8 -> Twist(smpte, 6, Of(s, <<101, 255, 256>>))
       [] r % 22 = 9 -> Twist(tsig, 1, Of(s, <<256, 257, 1000>>))
       [] r % 22 = 10 -> Twist(tsig, 2, Of(s, <<0, 3, 5, 6, 7, 12, 24, 255, 256, 512>>))
       [] r % 22 = 11 -> Twist(tsig, 3 + (s % 2), Of(s, <<256, 257, 1000>>))
       [] r % 22 = 12 -> BadKey(s, form)
       [] r % 22 = 13 -> named(Voice(9, ch, <<Of(s, <<128, 129, 131>>), 64>>))
       [] r % 22 = 14 -> named(Voice(8, ch, <<Of(s, <<128, 129, 131>>), 64>>))
       [] r % 22 = 15 -> named(Voice(8 + (s % 2), ch, <<60, Of(s \div 2, <<128, 129, 255, 256>>)>>))
       [] r % 22 = 16 -> LET hi == 8 + (s % 7)
                             ev == Voice(hi, 0, IF hi \in {8, 9, 11} THEN <<60, 64>> ELSE <<60>>)
                         IN [named(ev) EXCEPT !.ch = Of(s \div 7, <<16, 17, 128, 255, 256>>), !.bank = 0]
       [] r % 22 = 17 -> Voice(11, ch, <<Of(s, <<128, 129, 255, 256>>), 64>>)
       [] r % 22 = 18 -> Voice(11, ch, <<7, Of(s, <<128, 129, 255, 256>>)>>)
       [] r % 22 = 19 -> [Voice(12, ch, <<Of(s, <<128, 129, 255, 256>>)>>) EXCEPT !.bank = 0]
       [] r % 22 = 20 -> Voice(10 + 3 * (s % 2), ch, <<Of(s \div 2, <<128, 129, 255, 256>>)>>)
       [] r % 22 = 21 -> Voice(14, ch, <<Of(s, <<16384, 16385, 32768, 65535, 65536>>)>>)

BadDelta(r) == Of(r, <<"268435456", "268435457", "536870912", "2147483648", "4294967295", "4294967296", "99999999999999999999", "-1">>)

\* Something wrong with event e of track t (which exists).
BadSpot(d, R, form, c4) ==
  LET ts == {t \in 1..Len(d.tracks) : d.tracks[t].evs # <<>>} IN
  IF ts = {} THEN NoBad
  ELSE LET t == SetToSeq(ts)[(R[1] % Cardinality(ts)) + 1]
           e == (R[2] % Len(d.tracks[t].evs)) + 1
       IN IF Chance(R[3], 25)
          THEN [t |-> t, e |-> e, ev |-> d.tracks[t].evs[e], delta |-> BadDelta(R[4])]
          ELSE LET ev == BadEvent(R[5], R[6], form, c4) IN [t |-> t, e |-> e, ev |-> ev, delta |-> Num(R[7] % 100)]

\* Sources that are wrong as a whole, by form.
BadText == <<
  "", NL, "%% nothing" \o NL, "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:3, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:10, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:21, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:1" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:1, metrical time:65536 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:1, metrical time:40000 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:1, SMPTE:24 fps,256 sub-frames" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:1, SMPTE:26 fps,4 sub-frames" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 EndOfTrak" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn channel:0 note:C4" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn note:C4, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn channel:0 note:H4, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 Tempo fast" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage Roland, 0G 01" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage Roland, 0" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage Nobody at all, 01" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SequencerSpecificEvent Nobody at all, 01" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExEscape F3 0" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "what is this" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn channel:0 note:4, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn channel:0 note:C, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 90 NoteOn channel:x note:C4, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:x 90 NoteOn channel:0 note:C4, velocity:64" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 58 TimeSignature 4, 24 ticks per click, 8/32 per quarter" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 54 SMPTEOffset 1 2 3 25 4" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 00 SequenceNumber" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 59 KeySignature" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 E0 PitchBend channel:0 bend:" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 C0 ProgramChange channel:0 program:" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 B0 Controller channel:0 7/Volume, value:" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage " \o "<3C>unknown<3E>" \o ", 01" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage " \o "<3C>unknown<3E>" \o ", 01 02 03" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SysExMessage , 01" \o NL \o "delta:0 EndOfTrack" \o NL,
  "MThd format:0, metrical time:480 ppqn" \o NL \o "MTrk" \o NL \o "delta:0 SequencerSpecificEvent " \o "<3C>unknown<3E>" \o ", 01" \o NL \o "delta:0 EndOfTrack" \o NL >>

JEnd == "{" \o Field("event", "{" \o Field("tag", JsonStr("EndOfTrack")) \o "}") \o "}"
JDoc(h, evs) == "{" \o Field("header", h) \o "," \o Field("tracks", "[{" \o Field("tag", JsonStr("MTrk")) \o "," \o Field("events", "[" \o evs \o "]") \o "}]") \o "}"
JHead(f, p) == "{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("format", f) \o "," \o Field("PPQN", p) \o "}"
JEv(s) == "{" \o Field("event", "{" \o s \o "}") \o "}"

BadJson == <<
  "", "{", "[]", "nonsense", "{}", DQ \o "MThd" \o DQ,
  JDoc(JHead("3", "480"), JEnd), JDoc(JHead("-1", "480"), JEnd), JDoc(JHead("65536", "480"), JEnd),
  JDoc(JHead("1", "65536"), JEnd), JDoc(JHead("1", "40000"), JEnd), JDoc(JHead("1", "-1"), JEnd),
  JDoc("{" \o Field("format", "1") \o "," \o Field("PPQN", "480") \o "}", JEnd),
  JDoc("{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("PPQN", "480") \o "}", JEnd),
  JDoc("{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("format", "1") \o "}", JEnd),
  JDoc("{" \o Field("tag", JsonStr("MTrk")) \o "," \o Field("format", "1") \o "," \o Field("PPQN", "480") \o "}", JEnd),
  JDoc("{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("format", "1") \o "," \o Field("SMPTETimeCode", "true") \o "," \o Field("division", "480") \o "}", JEnd),
  JDoc("{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("format", "1") \o "," \o Field("SMPTETimeCode", "true") \o "}", JEnd),
  "{" \o Field("header", JHead("1", "480")) \o "," \o Field("tracks", "[{" \o Field("events", "[]") \o "}]") \o "}",
  "{" \o Field("header", JHead("1", "480")) \o "," \o Field("tracks", "[{" \o Field("tag", JsonStr("MThd")) \o "," \o Field("events", "[]") \o "}]") \o "}",
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("Nothing")))),
  JDoc(JHead("1", "480"), JEv(Field("delta", "4"))),
  JDoc(JHead("1", "480"), "{}"),
  JDoc(JHead("1", "480"), "42"),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("Tempo")) \o "," \o Field("tempo", JsonStr("500000")))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("Tempo")) \o "," \o Field("tempo", "-1"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("Tempo")) \o "," \o Field("tempo", "1.5"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SysExEscape")) \o "," \o Field("data", "[1,256]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SysExEscape")) \o "," \o Field("data", "[-1]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SysExContinuation")) \o "," \o Field("data", "[300]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SysExMessage")) \o "," \o Field("manufacturer", "{" \o Field("id", "[65]") \o "}") \o "," \o Field("data", "[256]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SysExMessage")) \o "," \o Field("manufacturer", "{" \o Field("id", "[321]") \o "}") \o "," \o Field("data", "[1]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("SequencerSpecificEvent")) \o "," \o Field("manufacturer", "{" \o Field("id", "[65]") \o "}") \o "," \o Field("data", "[256]"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("NoteOn")) \o "," \o Field("channel", "-1") \o "," \o Field("note", "{" \o Field("value", "60") \o "}") \o "," \o Field("velocity", "64"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("NoteOn")) \o "," \o Field("channel", "0") \o "," \o Field("note", "{" \o Field("value", "-1") \o "}") \o "," \o Field("velocity", "64"))),
  JDoc(JHead("1", "480"), JEv(Field("tag", JsonStr("Text")) \o "," \o Field("text", "42"))) >>

(* ---- what a case says about its sources ---------------------------------------- *)

Proper(d) == [ok |-> TRUE, h |-> d.h, tracks |-> [i \in 1..Len(d.tracks) |-> Meanings(d.tracks[i].evs)]]
Improper == [ok |-> FALSE, h |-> NoHeader, tracks |-> <<>>]
=============================================================================
