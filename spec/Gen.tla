--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Drawing documents: pure functions from a tuple of random numbers (the   *)
(* "entropy" of one step of the generator) to events, encodings, mutations *)
(* and files.  The state machine that draws the entropy is GenFiles.       *)
(***************************************************************************)
EXTENDS Smf

\* 16 independent draws; a tuple, so that TLC evaluates it eagerly. (x is a state variable, so that the definition is not a constant.)
Draw(x) ==
  <<RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999),
    RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999),
    RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999),
    RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999), RandomElement(0..999999)>>

Of(r, list) == list[(r % Len(list)) + 1]
Upto(r, n) == r % (n + 1)
Chance(r, percent) == (r % 100) < percent

\* The i-th pseudo random number derived from r.
Mix(r, i) == ((r * 37 + (i % 200000) * 7919 + (r \div 97) * (((i % 101) * (i % 101)) % 101)) % 99991) + ((r + i * 31) % 997)

(* ---- payloads ------------------------------------------------------------ *)

\* Biased towards boundaries.
Data7(r, s) == IF Chance(r, 40) THEN Of(s, <<0, 1, 63, 64, 126, 127>>) ELSE (s % 128)
DrawNote(r, s, pool) == IF Len(pool) > 0 /\ Chance(r, 70) THEN Of(s, pool)
                        ELSE IF Chance(r, 85) THEN (s % 128) ELSE Of(s, <<0, 1, 11, 12, 60, 61, 120, 126, 127>>)

Printable(r, n) == [i \in 1..n |-> 33 + (Mix(r, i) % 94)]
AnyBytes(r, n) == [i \in 1..n |-> (Mix(r, i) % 256)]

\* Words in various scripts, and words that mean something to the program.
Words == <<
  <<80, 105, 97, 110, 111>>,                               \* Piano
  <<195, 169, 116, 117, 100, 101>>,                        \* e-acute "tude"
  <<77, 84, 114, 107>>, <<77, 84, 104, 100>>,              \* MTrk, MThd
  <<84, 101, 109, 112, 111, 32, 49>>,                      \* Tempo 1
  <<100, 101, 108, 116, 97, 58, 49, 50>>,                  \* delta:12
  <<78, 111, 116, 101, 79, 110>>,                          \* NoteOn
  <<35, 226, 153, 175, 32, 226, 153, 173>>,                \* accidentals
  <<240, 159, 142, 185>>,                                  \* emoji
  <<60, 98, 62, 38, 34, 92>>,                              \* <b>&"\
  <<37, 37, 32, 99>>,                                      \* %% c
  <<44, 44, 59, 59>>, <<97, 32, 32, 98>>,                  \* ,,;;   a  b
  <<69, 110, 100, 79, 102, 84, 114, 97, 99, 107>>,         \* EndOfTrack
  <<99, 104, 97, 110, 110, 101, 108, 58, 51>>,             \* channel:3
  <<47, 47, 32, 35>> >>

\* Unusual but valid UTF-8: control characters, line breaks, separators, the replacement character, a byte order mark.
Odd == <<
  <<0>>, <<9, 65>>, <<10>>, <<13, 10>>, <<65, 10, 66>>, <<7, 27, 127>>, <<32, 65, 32>>, <<226, 128, 168>>, <<226, 128, 169, 65>>, <<239, 191, 189>>,
  <<239, 187, 191, 65>>, <<194, 133>>, <<194, 160, 65>>, <<12>>, <<11, 65>>, <<92, 110>>, <<92, 117, 48, 48, 52, 49>>, <<39, 96>>, <<8>>, <<244, 143, 191, 191>> >>

\* A line of text can hold any bytes but a line feed, does not begin with white space and does not end with a carriage return.
Space == {9, 10, 12, 13, 32}
AsLine(s) ==
  LET t == [i \in 1..Len(s) |-> IF s[i] = 10 THEN 46 ELSE s[i]]
      u == IF t # <<>> /\ t[1] \in Space THEN <<95>> \o t ELSE t
  IN IF u # <<>> /\ u[Len(u)] = 13 THEN u \o <<95>> ELSE u

\* style: "any" arbitrary bytes; "utf8" valid UTF-8; "line" what a line of text can hold; "plain" both of those.
DrawText(r, s, style, n) ==
  IF style = "any" /\ Chance(r, 50) THEN AnyBytes(s, n)
  ELSE IF style = "line" /\ Chance(r, 40) THEN AsLine(AnyBytes(s, n))
  ELSE IF style = "line" /\ Chance(r, 60) THEN AsLine(Of(s, Odd) \o Of(s \div 100, Words))
  ELSE IF style \in {"utf8", "any"} /\ Chance(r, 50) THEN Of(s, Odd) \o Of(s \div 100, Words) \o Of(s \div 1000, Odd)
  ELSE IF n > 20 THEN Printable(s, n)
  ELSE IF Chance(r \div 100, 40) THEN Of(s, Words)
  ELSE IF Chance(r \div 100, 55) THEN Of(s, Words) \o <<32>> \o Of(s \div 100, Words)
  ELSE IF n = 0 /\ style # "any" THEN <<>>
  ELSE Printable(s, n)

DrawLen(r, s, bulk) ==
  IF bulk THEN Of(r, <<0, 1, 126, 127, 128, 129, 130, 255, 256, 300, 40, 200>>)
  ELSE IF Chance(r, 15) THEN Of(s, <<0, 1, 2>>) ELSE 1 + (s % 12)

\* Manufacturer ids: known, unknown, one and three bytes.
DrawMan(r, s, known) ==
  IF known \/ Chance(r, 75) THEN Manufacturers[(s % Len(Manufacturers)) + 1].id
  ELSE Of(s, << <<2>>, <<3>>, <<99>>, <<0, 0, 1>>, <<0, 127, 127>>, <<0, 32, 0>> >>)

Bytes7(r, n) == [i \in 1..n |-> (Mix(r, i) % 128)]

(* ---- deltas -------------------------------------------------------------- *)

DrawDelta(r, s, big) ==
  IF big THEN Of(r, <<0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435454, 200000000, 100000000 + s>>)
  ELSE Of(r, <<0, 0, 0, 1, 10, 96, 127, 128, 129, 240, 480, 481, 960, 16383, 16384, (s % 300), (s % 20000), (s % 2000)>>)

(* ---- events --------------------------------------------------------------- *)

Meta(ty, v, s) == [NoEvent EXCEPT !.tag = MetaTag(ty), !.st = 255, !.ty = ty, !.v = v, !.s = s]
Voice(hi, ch, v) == [NoEvent EXCEPT !.tag = VoiceTag(hi), !.st = hi * 16 + ch, !.ch = ch, !.v = v]
SysEx(tag, v, s, f) ==
  [NoEvent EXCEPT !.tag = tag, !.st = IF tag = "SysExMessage" THEN 240 ELSE 247, !.v = v, !.s = s, !.f = f]

\* o: options of the generator - [notes, chans, text, bulk, known]
DrawEvent(kind, R, o) ==
  LET ch == Of(R[2], o.chans)
      txt == DrawText(R[3], R[4], o.text, DrawLen(R[5], R[6], o.bulk))
  IN
  CASE kind = "on" -> Voice(9, ch, <<DrawNote(R[3], R[4], o.notes), 1 + (R[5] % 127)>>)
    [] kind = "on0" -> Voice(9, ch, <<DrawNote(R[3], R[4], o.notes), 0>>)
    [] kind = "off" -> Voice(8, ch, <<DrawNote(R[3], R[4], o.notes), Data7(R[5], R[6])>>)
    [] kind = "poly" -> Voice(10, ch, <<Data7(R[3], R[4])>>)
    [] kind = "ctl" -> Voice(11, ch, <<(R[4] % 128), Data7(R[5], R[6])>>)
    [] kind = "msb" -> Voice(11, ch, <<0, Data7(R[5], R[6])>>)
    [] kind = "lsb" -> Voice(11, ch, <<32, Data7(R[5], R[6])>>)
    [] kind = "prog" -> Voice(12, ch, <<Data7(R[3], R[4])>>)
    [] kind = "chan" -> Voice(13, ch, <<Data7(R[3], R[4])>>)
    [] kind = "bend" -> Voice(14, ch, <<IF Chance(R[3], 40) THEN Of(R[4], <<0, 1, 127, 128, 8191, 8192, 8193, 16382, 16383>>) ELSE (R[4] % 16384)>>)
    [] kind = "seqno" -> Meta(0, <<IF Chance(R[3], 40) THEN Of(R[4], <<0, 1, 255, 256, 65535>>) ELSE (R[4] % 65536)>>, <<>>)
    [] kind = "text" -> Meta(1 + (R[7] % 9), <<>>, txt)
    [] kind = "prefix" -> Meta(32, <<(R[3] % 16)>>, <<>>)
    [] kind = "port" -> Meta(33, <<Data7(R[3], R[4])>>, <<>>)
    [] kind = "eot" -> Meta(47, <<>>, <<>>)
    [] kind = "tempo" -> Meta(81, <<IF Chance(R[3], 40) THEN Of(R[4], <<0, 1, 255, 256, 65535, 65536, 16777215, 500000>>)
                                    ELSE R[4] * 16 + (R[5] % 16)>>, <<>>)
    [] kind = "smpte" ->
         LET rate == Of(R[3], <<24, 25, 29, 30>>) IN
         Meta(84, <<Of(R[4], <<0, 1, 12, 23, 24>>), Of(R[5], <<0, 1, 30, 59>>), Of(R[6], <<0, 1, 30, 59>>), rate,
                    IF Chance(R[7], 50) THEN rate - 1 ELSE (R[7] % rate), Of(R[8], <<0, 1, 50, 99, 100>>)>>, <<>>)
    [] kind = "tsig" -> Meta(88, <<IF Chance(R[3], 20) THEN Of(R[4], <<0, 1, 255>>) ELSE 1 + (R[4] % 16), 2^((R[5] % 8)), Data7(R[6], R[7]), (R[8] % 256)>>, <<>>)
    [] kind = "ksig" -> Meta(89, <<((R[3] % 15)) - 7, (R[4] % 2)>>, <<>>)
    [] kind = "seqspec" -> LET id == DrawMan(R[3], R[4], o.known) IN
                           Meta(127, id, IF Chance(R[5], 20) THEN AnyBytes(R[6], DrawLen(R[7], R[8], o.bulk)) ELSE Bytes7(R[6], DrawLen(R[7], R[8], o.bulk)))
    [] kind = "sx" -> SysEx("SysExMessage", DrawMan(R[3], R[4], o.known), Bytes7(R[5], DrawLen(R[6], R[7], o.bulk)), TRUE)
    [] kind = "sxopen" -> SysEx("SysExMessage", DrawMan(R[3], R[4], o.known), Bytes7(R[5], DrawLen(R[6], R[7], o.bulk)), FALSE)
    [] kind = "sxcont" -> SysEx("SysExContinuation", <<>>, Bytes7(R[5], DrawLen(R[6], R[7], o.bulk)), FALSE)
    [] kind = "sxend" -> SysEx("SysExContinuation", <<>>, Bytes7(R[5], DrawLen(R[6], R[7], o.bulk)), TRUE)
    [] kind = "sxesc" -> SysEx("SysExEscape", <<>>, AnyBytes(R[5], DrawLen(R[6], R[7], o.bulk)), FALSE)

\* A one byte id of zero followed by two seven bit bytes reads as a three byte id: only draw what the encoding can say.
Unambiguous(ev) ==
  /\ ev.tag = "SysExMessage" => LET d == SysExData(ev) IN SysExPayload(240, d, FALSE).v = ev.v /\ SysExPayload(240, d, FALSE).f = ev.f
  /\ ev.tag = "SequencerSpecificEvent" => MetaPayload(127, MetaData(ev)).v = ev.v

(* ---- encodings -------------------------------------------------------------- *)

\* Bytes of an event: elide - use running status if it is in force; pd, pl - widths to pad delta and length to.
EncodeWith(ev, run, elide, pd, pl) ==
  LET d == VlqPadded(ev.delta, pd) IN
  IF ev.tag \in MetaTags THEN LET x == MetaData(ev) IN d \o <<255, ev.ty>> \o VlqPadded(Len(x), pl) \o x
  ELSE IF ev.tag \in SysExTags THEN LET x == SysExData(ev) IN d \o <<ev.st>> \o VlqPadded(Len(x), pl) \o x
  ELSE IF elide /\ run = ev.st THEN d \o VoiceData(ev)
  ELSE d \o <<ev.st>> \o VoiceData(ev)

(* ---- chunks that are not tracks ---------------------------------------------- *)

Alien(r, s) == Chunk(Of(r, << <<88, 70, 73, 72>>, <<88, 70, 75, 77>>, <<0, 0, 0, 0>>, <<109, 116, 114, 107>>, <<77, 84, 114, 75>> >>), AnyBytes(s, (s % 20)))

(* ---- mutations ----------------------------------------------------------------- *)

Replace(b, i, x) == [b EXCEPT ![i] = x]

Mutate(b, R) ==
  LET n == Len(b)
      i == ((R[2] * 7 + R[3]) % n) + 1
      j == Min2(n, i + (R[4] % 4))
  IN CASE (R[1] % 12) = 0 -> SubSeq(b, 1, i - 1)                                            \* truncate
       [] (R[1] % 12) = 1 -> SubSeq(b, 1, Max2(0, n - 1 - (R[4] % 6)))                        \* truncate near the end
       [] (R[1] % 12) = 2 -> Replace(b, i, (R[4] % 256))                                      \* overwrite
       [] (R[1] % 12) = 3 -> Replace(b, i, Of(R[4], <<0, 1, 127, 128, 240, 247, 254, 255, 47, 81, 89>>))
       [] (R[1] % 12) = 4 -> SubSeq(b, 1, i - 1) \o <<(R[4] % 256)>> \o SubSeq(b, i, n)       \* insert
       [] (R[1] % 12) = 5 -> SubSeq(b, 1, i - 1) \o SubSeq(b, j + 1, n)                     \* delete a few bytes
       [] (R[1] % 12) = 6 -> SubSeq(b, 1, j) \o SubSeq(b, i, n)                             \* repeat a few bytes
       [] (R[1] % 12) = 7 -> b \o AnyBytes(R[4], 1 + (R[5] % 12))                             \* trailing garbage
       [] (R[1] % 12) = 8 -> IF n >= 14 THEN Replace(b, 1 + (R[4] % 14), (R[5] % 256)) ELSE b   \* header
       [] (R[1] % 12) = 9 -> IF n >= 12 THEN Replace(b, 12, (b[12] + 1 + (R[4] % 2) * 254) % 256) ELSE b   \* track count +-1
       [] (R[1] % 12) = 10 -> IF n >= 22 THEN Replace(b, 22, (b[22] + Of(R[4], <<1, 255, 2, 254, 8, 248>>)) % 256) ELSE b  \* length of the first track
       [] (R[1] % 12) = 11 -> Replace(b, i, (b[i] + 128) % 256)                             \* flip the top bit
=============================================================================
