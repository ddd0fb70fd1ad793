------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* The abstract MIDI event: what a musician means by "the event", free of  *)
(* how it was encoded.                                                     *)
(*                                                                         *)
(*   tag    the kind of event                                              *)
(*   delta  ticks since the previous event of the track                    *)
(*   tick   absolute tick, in decimal (it may exceed 32 bits)              *)
(*   st     status byte;  ty  meta event type (-1 for other events)        *)
(*   ch     channel, for channel voice messages (-1 for other events)      *)
(*   v      the numeric payload, s the byte string payload, f the flag     *)
(*          ("this packet ends the SysEx message")                         *)
(*   name, alias   note names (NoteOn, NoteOff), key name (KeySignature)   *)
(*   bank   program bank in force (ProgramChange), otherwise -1            *)
(*   raw    the bytes of the file that encode the event                    *)
(*                                                                         *)
(* The conformance driver projects the program's own event objects onto    *)
(* exactly this record.                                                    *)
(***************************************************************************)
EXTENDS Bytes, Tables

TextTypes == 1..9

TextTag(ty) ==
  <<"Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName">>[ty]

TextTags == {TextTag(t) : t \in TextTypes}

MetaTypes == {0} \cup TextTypes \cup {32, 33, 47, 81, 84, 88, 89, 127}

MetaTag(ty) ==
  IF ty \in TextTypes THEN TextTag(ty)
  ELSE CASE ty = 0 -> "SequenceNumber"
         [] ty = 32 -> "MIDIChannelPrefix"
         [] ty = 33 -> "MIDIPort"
         [] ty = 47 -> "EndOfTrack"
         [] ty = 81 -> "Tempo"
         [] ty = 84 -> "SMPTEOffset"
         [] ty = 88 -> "TimeSignature"
         [] ty = 89 -> "KeySignature"
         [] ty = 127 -> "SequencerSpecificEvent"

\* Channel voice messages by high nibble (8..14).
VoiceTag(hi) ==
  CASE hi = 8 -> "NoteOff"
    [] hi = 9 -> "NoteOn"
    [] hi = 10 -> "PolyphonicPressure"
    [] hi = 11 -> "Controller"
    [] hi = 12 -> "ProgramChange"
    [] hi = 13 -> "ChannelPressure"
    [] hi = 14 -> "PitchBend"

\* The program reads one data byte for polyphonic pressure.
VoiceLen(hi) == IF hi \in {10, 12, 13} THEN 1 ELSE 2

MetaTags == {MetaTag(t) : t \in MetaTypes}
VoiceTags == {VoiceTag(h) : h \in 8..14}
SysExTags == {"SysExMessage", "SysExContinuation", "SysExEscape"}
Tags == MetaTags \cup VoiceTags \cup SysExTags

NoteTags == {"NoteOn", "NoteOff"}

(* ---- note and key names ------------------------------------------------ *)

SharpName == <<"C", "C" \o SHARP, "D", "D" \o SHARP, "E", "F", "F" \o SHARP, "G", "G" \o SHARP, "A", "A" \o SHARP, "B">>
FlatName  == <<"C", "D" \o FLAT, "D", "E" \o FLAT, "E", "F", "G" \o FLAT, "G", "A" \o FLAT, "A", "B" \o FLAT, "B">>

\* c4: middle C (note 60) is written C4 - the program's own convention is that --C4 shifts the octave down by one.
NoteName(n, flats, c4) ==
  (IF flats THEN FlatName ELSE SharpName)[(n % 12) + 1] \o ToString((n \div 12) - (IF c4 THEN 2 ELSE 1))

Major == 0
Minor == 1

\* Key names in order of accidentals -7..7.
MajorKeys == <<"C" \o FLAT, "G" \o FLAT, "D" \o FLAT, "A" \o FLAT, "E" \o FLAT, "B" \o FLAT, "F", "C", "G", "D", "A", "E", "B", "F" \o SHARP, "C" \o SHARP>>
MinorKeys == <<"A" \o FLAT, "E" \o FLAT, "B" \o FLAT, "F", "C", "G", "D", "A", "E", "B", "F" \o SHARP, "C" \o SHARP, "G" \o SHARP, "D" \o SHARP, "A" \o SHARP>>

KeyName(acc, type) ==
  IF type = Major THEN MajorKeys[acc + 8] \o " major" ELSE MinorKeys[acc + 8] \o " minor"

(* ---- fields that each property compares -------------------------------- *)

Payload == {"tag", "delta", "st", "ty", "ch", "v", "s", "f"}
Fidelity == Payload \cup {"tick"}

NoEvent == [tag |-> "", delta |-> 0, tick |-> "0", st |-> 0, ty |-> -1, ch |-> -1, v |-> <<>>, s |-> <<>>, f |-> FALSE,
            name |-> "", alias |-> "", bank |-> -1, raw |-> <<>>]

\* An event stripped to what an encoding of it must carry.
Meaning(ev) == [tag |-> ev.tag, delta |-> ev.delta, st |-> ev.st, ty |-> ev.ty, ch |-> ev.ch, v |-> ev.v, s |-> ev.s, f |-> ev.f]

(* ---- encoding of one event (status always explicit) --------------------- *)

Log2(d) == CHOOSE k \in 0..7 : 2^k = d

RateCode(r) == CASE r = 24 -> 0 [] r = 25 -> 1 [] r = 29 -> 2 [] r = 30 -> 3

MetaData(ev) ==
  CASE ev.tag = "SequenceNumber" -> BE16(ev.v[1])
    [] ev.tag \in TextTags -> ev.s
    [] ev.tag \in {"MIDIChannelPrefix", "MIDIPort"} -> <<ev.v[1]>>
    [] ev.tag = "EndOfTrack" -> <<>>
    [] ev.tag = "Tempo" -> <<ev.v[1] \div 65536, (ev.v[1] \div 256) % 256, ev.v[1] % 256>>
    [] ev.tag = "SMPTEOffset" -> <<32 * RateCode(ev.v[4]) + ev.v[1], ev.v[2], ev.v[3], ev.v[5], ev.v[6]>>
    [] ev.tag = "TimeSignature" -> <<ev.v[1], Log2(ev.v[2]), ev.v[3], ev.v[4]>>
    [] ev.tag = "KeySignature" -> <<(ev.v[1] + 256) % 256, ev.v[2]>>
    [] ev.tag = "SequencerSpecificEvent" -> ev.v \o ev.s

Terminator(f) == IF f THEN <<247>> ELSE <<>>

SysExData(ev) ==
  CASE ev.tag = "SysExMessage" -> ev.v \o ev.s \o Terminator(ev.f)
    [] ev.tag = "SysExContinuation" -> ev.s \o Terminator(ev.f)
    [] ev.tag = "SysExEscape" -> ev.s

VoiceData(ev) ==
  IF ev.tag = "PitchBend" THEN <<ev.v[1] \div 128, ev.v[1] % 128>> ELSE ev.v

EventBytes(ev) ==
  IF ev.tag \in MetaTags THEN LET d == MetaData(ev) IN <<255, ev.ty>> \o Vlq(Len(d)) \o d
  ELSE IF ev.tag \in SysExTags THEN LET d == SysExData(ev) IN <<ev.st>> \o Vlq(Len(d)) \o d
  ELSE <<ev.st>> \o VoiceData(ev)
=============================================================================
