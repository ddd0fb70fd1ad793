--------------------------------- MODULE Enum ---------------------------------
(***************************************************************************)
(* Exhaustive enumeration: where the random generator samples, this one    *)
(* lists.  Every item of the chosen Set becomes one case; the items sweep  *)
(* value ranges (many values packed in one file), orders of events, byte   *)
(* patterns, truncations and substitutions.                                *)
(***************************************************************************)
EXTENDS Cases

CONSTANTS Set,          \* which enumeration
          Stride, Phase \* of the items, take those whose weight is Phase modulo Stride (1, 0: all of them)

VARIABLES item,         \* number of the item
          shown         \* the item has been printed

evars == <<item, shown>>

(* ---- files ------------------------------------------------------------------- *)

Eot == [Meta(47, <<>>, <<>>) EXCEPT !.delta = 0]
At(ev, delta) == [ev EXCEPT !.delta = delta]

\* A file with these tracks (an EndOfTrack is added to each).
Plainly(fmt, div, ts) == FileBytes(Header(fmt, Len(ts), div), [i \in 1..Len(ts) |-> Append(ts[i], Eot)])

\* A track with running status wherever it is allowed.
RECURSIVE Elided(_, _, _)
Elided(evs, i, run) ==
  IF i > Len(evs) THEN <<>>
  ELSE EncodeWith(evs[i], run, TRUE, 1, 1) \o Elided(evs, i + 1, IF evs[i].tag \in VoiceTags THEN evs[i].st ELSE 0)

RECURSIVE ElidedTracks(_, _)
ElidedTracks(ts, i) == IF i > Len(ts) THEN <<>> ELSE Chunk(TagMTrk, Elided(Append(ts[i], Eot), 1, 0)) \o ElidedTracks(ts, i + 1)
Tersely(fmt, div, ts) == HeaderBytes(Header(fmt, Len(ts), div)) \o ElidedTracks(ts, 1)

\* A file around the raw bytes of one track.
Raw(data) == HeaderBytes(Header(0, 1, 96)) \o Chunk(TagMTrk, data)
RawEot == <<0, 255, 47, 0>>

(* ---- values: every value of every kind of event --------------------------------- *)

KeyOf(k) == Meta(89, <<(k % 15) - 7, k \div 15>>, <<>>)

\* All notes in every key: struck, then released; and once more released in another key.
NoteFile(k) ==
  Tersely(k % 3, 96, << <<KeyOf(k)>> \o [n \in 1..128 |-> Voice(9, k % 16, <<n - 1, ((n * 7) % 127) + 1>>)]
                          \o [n \in 1..128 |-> At(Voice(8, k % 16, <<n - 1, n - 1>>), n % 5)],
                        <<KeyOf(k), Voice(9, 3, <<61, 64>>), KeyOf((k + 8) % 30), Voice(8, 3, <<61, 64>>), Voice(8, 3, <<63, 64>>), Voice(9, 3, <<63, 0>>)>> >>)

Controllers(v) == Tersely(1, 96, << [n \in 1..128 |-> Voice(11, (n + v) % 16, <<n - 1, v>>)] >>)
ControllerValues(id) == Tersely(0, 96, << [n \in 1..128 |-> Voice(11, id % 16, <<id, n - 1>>)] >>)
Bends(hi) == Tersely(0, 96, << [n \in 1..256 |-> Voice(14, hi % 16, <<hi * 256 + n - 1>>)] >>)
Programs(ch) == Tersely(0, 96, << [n \in 1..128 |-> Voice(12, ch, <<n - 1>>)] \o [n \in 1..128 |-> Voice(13, ch, <<n - 1>>)] \o [n \in 1..128 |-> Voice(10, ch, <<n - 1>>)] >>)

\* Bank select: all values of one half with some of the other, then a program change.
RECURSIVE BankRun(_, _, _)
BankRun(i, l, ch) ==
  IF i > 127 THEN <<>>
  ELSE <<Voice(11, ch, <<0, i>>), Voice(11, ch, <<32, l>>), Voice(12, ch, <<i>>), Voice(11, ch, <<32, i>>), Voice(12, ch, <<l>>), Voice(11, ch, <<0, l>>), Voice(12, ch, <<i>>)>> \o BankRun(i + 1, l, ch)
Banks(l) == Tersely(1, 480, << BankRun(0, l, l % 16), <<Voice(12, l % 16, <<5>>)>> >>)

\* Every channel with every kind of voice message.
Channels == Tersely(1, 96, [k \in 1..7 |-> [ch \in 1..16 |-> Voice(7 + k, ch - 1, IF 7 + k = 14 THEN <<100 * ch>> ELSE IF VoiceLen(7 + k) = 1 THEN <<ch>> ELSE <<ch, 2 * ch>>)]])

Powers == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456>>

Around(p, top) == SelectSeq(<<p - 1, p, p + 1, p + (p \div 2)>>, LAMBDA x : x >= 0 /\ x <= top)
RECURSIVE Edges(_, _)
Edges(i, top) == IF i > Len(Powers) THEN <<top>> ELSE Around(Powers[i], top) \o Edges(i + 1, top)

SequenceNumbers == LET s == Edges(1, 65535) IN Plainly(2, 96, << [i \in 1..Len(s) |-> Meta(0, <<s[i]>>, <<>>)] >>)
Tempos == LET s == Edges(1, 16777215) IN Plainly(1, 96, << [i \in 1..Len(s) |-> At(Meta(81, <<s[i]>>, <<>>), 1)], <<Voice(9, 0, <<60, 1>>), At(Voice(8, 0, <<60, 0>>), Len(s) * 2)>> >>)
DeltasTo(top) == LET s == Edges(1, top) IN Tersely(1, 96, << [i \in 1..Len(s) |-> At(Voice(9 - (i % 2), 0, <<i % 128, 5>>), s[i])], [i \in 1..Len(s) |-> At(Meta(1, <<>>, <<65>>), s[i])] >>)
Deltas == DeltasTo(MaxVlq)
\* Ticks beyond 32 bits.
FarTicks == Tersely(1, 96, << <<At(Meta(81, <<250000>>, <<>>), 5)>>, [i \in 1..40 |-> At(Voice(9 - (i % 2), i % 3, <<60 + (i % 5), 5>>), IF i % 6 = 0 THEN 1 ELSE MaxVlq)], [i \in 1..20 |-> At(Meta(1, <<>>, <<65>>), MaxVlq - i)] >>)
PrefixesAndPorts == Plainly(0, 96, << [i \in 1..16 |-> Meta(32, <<i - 1>>, <<>>)] \o [i \in 1..128 |-> Meta(33, <<i - 1>>, <<>>)] >>)

TimeSignatures(d) == Plainly(0, 96, << [n \in 1..256 |-> Meta(88, <<n - 1, 2^d, (n * 3) % 256, (n * 5 + d) % 256>>, <<>>)] >>)
KeySignatures == Plainly(1, 96, << [k \in 1..30 |-> KeyOf(k - 1)] >>)

Rates == <<24, 25, 29, 30>>
SmpteOffsets(r) ==
  Plainly(1, 96, << [h \in 1..25 |-> Meta(84, <<h - 1, 0, 59, Rates[r], h % 24, 100>>, <<>>)] \o [x \in 1..60 |-> Meta(84, <<x % 25, x - 1, 60 - x, Rates[r], x % 24, x>>, <<>>)]
                    \o [x \in 1..Rates[r] |-> Meta(84, <<0, 0, 0, Rates[r], x - 1, 0>>, <<>>)] \o [x \in 1..101 |-> Meta(84, <<24, 0, 0, Rates[r], 0, x - 1>>, <<>>)] >>)

\* Manufacturers: as SysEx messages (whole, and in two packets) and as sequencer specific events.
ManFile(a) ==
  LET n == Min2(24, Len(Manufacturers) - 24 * a)
      id(i) == Manufacturers[24 * a + i].id
  IN Plainly(1, 96, << [i \in 1..n |-> SysEx("SysExMessage", id(i), <<1, 2, i>>, TRUE)], [i \in 1..n |-> Meta(127, id(i), <<0, i, 127>>)],
                       [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN SysEx("SysExMessage", id((i + 1) \div 2), <<i>>, FALSE) ELSE SysEx("SysExContinuation", <<>>, <<i, 3>>, TRUE)] >>)
ManFiles == (Len(Manufacturers) + 23) \div 24

\* Unknown manufacturers: all one byte ids, and some of three.
IdFile(lo) == Plainly(1, 96, << [i \in 1..32 |-> SysEx("SysExMessage", <<Max2(1, lo + i - 1)>>, <<7>>, TRUE)], [i \in 1..32 |-> Meta(127, <<Max2(1, lo + i - 1)>>, <<7>>)],
                                [i \in 1..32 |-> SysEx("SysExMessage", <<0, i + lo - 1, 127 - lo>>, <<7>>, TRUE)], [i \in 1..32 |-> Meta(127, <<0, i + lo - 1, 127 - lo>>, <<7>>)] >>)

\* Text of all kinds holding every byte (in three positions), or every printable character.
Around2(x) == << <<x>>, <<65, x>>, <<x, 65>> >>
TextBytes(ty, lo) == Plainly(0, 96, << [i \in 1..96 |-> Meta(ty, <<>>, Around2(lo + ((i - 1) \div 3))[((i - 1) % 3) + 1])] >>)
TextChars(ty) == Plainly(0, 96, << [i \in 1..94 |-> Meta(ty, <<>>, <<32 + i>>)] \o [i \in 1..95 |-> Meta(ty, <<>>, <<65, 31 + i, 66>>)] >>)

\* Blanks: before, after and inside a text (its start excepted, where the text form cannot tell them from its own).
Tabs == << <<65, 32>>, <<65, 32, 32>>, <<65, 9>>, <<65, 32, 66, 32>>, <<65, 32, 32, 66>>, <<65, 9, 66>>, <<65, 32, 9, 32>>, <<65, 44, 32>>, <<65, 58, 32, 66>>, <<46, 32, 46>>, <<37, 37, 32, 65>>, <<35, 32>>, <<65, 92>>, <<92, 110, 32>>, <<65, 34, 32, 34>> >>
TextBlanks(ty) == Plainly(1, 96, << [i \in 1..Len(Tabs) |-> Meta(ty, <<>>, Tabs[i])], [i \in 1..Len(Tabs) |-> Meta(1 + ((ty + i) % 9), <<>>, Tabs[i])] >>)

Lengths == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 40, 41, 42, 43, 44, 63, 64, 100, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257>>
TextLengths(ty) == Plainly(0, 96, << [i \in 1..Len(Lengths) |-> Meta(ty, <<>>, Printable(i, Lengths[i]))] >>)
\* (A message without data has nowhere to put its terminator; the first length is 0.)
DataLengths ==
  LET n == Len(Lengths) IN
  Plainly(1, 96, << [i \in 1..(n - 1) |-> SysEx("SysExMessage", <<65>>, Bytes7(i, Lengths[i + 1]), TRUE)],
                    [i \in 1..n |-> SysEx("SysExEscape", <<>>, AnyBytes(i, Lengths[i]), FALSE)],
                    [i \in 1..n |-> Meta(127, <<65>>, AnyBytes(i, Lengths[i]))],
                    <<SysEx("SysExMessage", <<67>>, <<1>>, FALSE)>> \o [i \in 1..n |-> SysEx("SysExContinuation", <<>>, Bytes7(i, Lengths[i]), i = n)] >>)

Long == <<16383, 16384, 16385, 20000>>
LongText(i) == Plainly(0, 96, << <<Meta(1 + (i % 9), <<>>, Printable(i, Long[i])), Meta(3, <<>>, <<65>>)>> >>)
LongSysEx(i) == Plainly(0, 96, << <<SysEx("SysExMessage", <<65>>, Bytes7(i, Long[i]), TRUE), SysEx("SysExEscape", <<>>, AnyBytes(i, Long[i]), FALSE)>> >>)

\* Beyond the buffer sizes of line readers; representable in every form.
VeryLong(i) ==
  CASE i = 1 -> Plainly(0, 96, << <<Meta(1, <<>>, Printable(i, 70000)), Meta(3, <<>>, <<65>>)>> >>)
    [] i = 2 -> Plainly(0, 96, << <<SysEx("SysExMessage", <<65>>, Bytes7(i, 24000), TRUE), SysEx("SysExEscape", <<>>, AnyBytes(i, 24000), FALSE)>> >>)
    [] i = 3 -> Plainly(0, 96, << <<SysEx("SysExMessage", <<65>>, <<>>, FALSE), SysEx("SysExContinuation", <<>>, Bytes7(i, 24000), FALSE), SysEx("SysExContinuation", <<>>, Bytes7(i, 16384), TRUE)>> >>)
    [] i = 4 -> Plainly(0, 96, << <<Meta(127, <<65>>, AnyBytes(i, 24000)), Meta(5, <<>>, Printable(i, 16384))>> >>)

\* Many events, many tempo changes, many tracks, many bars, many key signatures; texts and packets whose length takes four bytes.
RECURSIVE Joined(_, _, _)
Joined(ss, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN ss[lo] ELSE LET m == (lo + hi) \div 2 IN Joined(ss, lo, m) \o Joined(ss, m + 1, hi)

RECURSIVE Repeated(_, _)
Repeated(x, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 0 THEN LET h == Repeated(x, n \div 2) IN h \o h ELSE x \o Repeated(x, n - 1)

Huge(i) ==
  CASE i = 1 -> Tersely(0, 480, << [n \in 1..1000 |-> At(Voice(9 - (n % 2), (n \div 64) % 16, <<((n \div 2) * 7) % 128, 1 + (n % 127)>>), n % 4)] >>)
    [] i = 2 -> Tersely(1, 480, << [n \in 1..400 |-> At(Meta(81, <<200000 + 977 * n>>, <<>>), 30 + (n % 7))], [n \in 1..600 |-> At(Voice(9 - (n % 2), n % 3, <<60 + ((n \div 2) % 12), 64>>), 17 + (n % 11))] >>)
    [] i = 3 -> Tersely(1, 96, [n \in 1..400 |-> IF n % 3 = 0 THEN <<Voice(11, n % 16, <<0, n % 128>>), Voice(12, n % 16, <<n % 128>>)>> ELSE <<Voice(12, n % 16, <<n % 128>>)>>])
    [] i = 4 -> Tersely(1, 24, << Joined([n \in 1..150 |-> <<At(Meta(81, <<400000 + 1000 * n>>, <<>>), 96)>>], 1, 150),
                                 Joined([n \in 1..150 |-> <<At(Meta(88, <<1 + (n % 9), 4, 24, 8>>, <<>>), IF n = 1 THEN 0 ELSE 24 * (1 + ((n - 1) % 9)) * (1 + (n % 3)))>>], 1, 150) >>)
    [] i = 5 -> Tersely(1, 96, << Joined([n \in 1..500 |-> <<KeyOf((n * 7) % 30), Voice(9, n % 16, <<(n * 5) % 128, 64>>), Voice(8, (n + 1) % 16, <<((n - 1) * 5) % 128, 64>>)>>], 1, 500) >>)
    [] i = 6 -> Tersely(2, 96, << Joined([n \in 1..500 |-> <<Voice(11, n % 16, <<0, n % 128>>), Voice(11, n % 16, <<32, (n * 3) % 128>>), Voice(12, (n * 5) % 16, <<n % 128>>)>>], 1, 500) >>)
    [] i = 7 -> Tersely(0, 96, << Joined([n \in 1..400 |-> <<SysEx("SysExMessage", <<67>>, <<n % 128>>, FALSE), SysEx("SysExContinuation", <<>>, <<1, n % 128>>, n % 2 = 0)>> \o (IF n % 2 = 0 THEN <<>> ELSE <<SysEx("SysExContinuation", <<>>, <<2>>, TRUE)>>)], 1, 400) >>)
    [] i = 8 -> Tersely(1, 96, << [n \in 1..1010 |-> At(Voice(11, n % 16, <<7, n % 128>>), 1)] \o <<At(Meta(1, <<>>, Printable(i, 70)), 100000)>>, <<Voice(9, 0, <<60, 64>>), At(Voice(8, 0, <<60, 64>>), 1)>> >>)
Bulky(i) ==
  CASE i = 1 -> Plainly(0, 96, << <<Meta(1, <<>>, Repeated(<<65, 66, 67, 68, 69, 70, 71, 72>>, 262145)), Meta(3, <<>>, <<65>>)>> >>)
    [] i = 2 -> Plainly(0, 96, << <<SysEx("SysExEscape", <<>>, Repeated(<<1, 2, 3, 4, 5, 6, 7, 8>>, 262145), FALSE), Meta(3, <<>>, <<65>>)>> >>)

Divs == <<0, 1, 2, 24, 96, 127, 128, 255, 256, 480, 960, 16384, 32766, 32767, 59392, 59393, 59647, 59136, 59137, 59391, 58112, 58113, 58367, 57856, 57857, 58111>>
Heads(i) == Plainly(i % 3, Divs[i], << <<>>, <<Voice(9, 0, <<60, 64>>)>>, <<>> >>)
ManyTracks(n) == Plainly(1, 96, [i \in 1..n |-> <<Meta(3, <<>>, <<65 + (i % 26)>>), Voice(12, i % 16, <<i % 128>>)>>])

Values(i) ==
  CASE i <= 30 -> NoteFile(i - 1)
    [] i <= 94 -> Bends(i - 31)
    [] i <= 98 -> Controllers(<<0, 1, 64, 127>>[i - 94])
    [] i <= 102 -> ControllerValues(<<0, 32, 64, 127>>[i - 98])
    [] i <= 118 -> Programs(i - 103)
    [] i <= 124 -> Banks(<<0, 1, 63, 64, 126, 127>>[i - 118])
    [] i <= 132 -> TimeSignatures(i - 125)
    [] i <= 136 -> SmpteOffsets(i - 132)
    [] i = 137 -> SequenceNumbers
    [] i = 138 -> Tempos
    [] i = 139 -> Deltas
    [] i = 140 -> PrefixesAndPorts
    [] i = 141 -> KeySignatures
    [] i = 142 -> Channels
    [] i <= 151 -> TextChars(i - 142)
    [] i <= 160 -> TextLengths(i - 151)
    [] i <= 160 + Len(Divs) -> Heads(i - 160)
    [] i <= 160 + Len(Divs) + ManFiles -> ManFile(i - 161 - Len(Divs))
    [] i = 161 + Len(Divs) + ManFiles -> ManyTracks(100)
    [] i = 162 + Len(Divs) + ManFiles -> ManyTracks(300)
    [] i = 163 + Len(Divs) + ManFiles -> DataLengths
    [] i <= 172 + Len(Divs) + ManFiles -> TextBlanks(i - 163 - Len(Divs) - ManFiles)
    [] i = 173 + Len(Divs) + ManFiles -> FarTicks
NValues == 173 + Len(Divs) + ManFiles

\* Values that the text or JSON form cannot carry, or that are too long to be worth carrying everywhere.
Extremes(i) ==
  CASE i <= 72 -> TextBytes(((i - 1) \div 8) + 1, 32 * ((i - 1) % 8))
    [] i <= 76 -> IdFile(32 * (i - 73))
    [] i <= 80 -> LongText(i - 76)
    [] i <= 84 -> LongSysEx(i - 80)
NExtremes == 84

(* ---- orders: every event after every other ---------------------------------------- *)

Shapes == <<
  Voice(8, 0, <<60, 64>>), Voice(8, 1, <<60, 64>>), Voice(9, 0, <<60, 64>>), Voice(9, 0, <<61, 64>>), Voice(9, 1, <<61, 64>>), Voice(9, 0, <<60, 0>>), Voice(9, 0, <<61, 0>>), Voice(8, 0, <<61, 0>>),
  Voice(10, 0, <<100>>), Voice(11, 0, <<0, 3>>), Voice(11, 0, <<32, 5>>), Voice(11, 0, <<7, 100>>), Voice(11, 1, <<0, 1>>), Voice(11, 1, <<32, 2>>), Voice(12, 0, <<25>>), Voice(12, 1, <<26>>),
  Voice(13, 0, <<7>>), Voice(14, 0, <<8192>>), Meta(0, <<23>>, <<>>), Meta(1, <<>>, <<84, 101, 120, 116>>), Meta(2, <<>>, <<67>>), Meta(3, <<>>, <<80, 105, 97, 110, 111>>), Meta(4, <<>>, <<73>>), Meta(5, <<>>, <<76, 97>>),
  Meta(6, <<>>, <<77>>), Meta(7, <<>>, <<81>>), Meta(8, <<>>, <<80>>), Meta(9, <<>>, <<68>>), Meta(32, <<5>>, <<>>), Meta(33, <<1>>, <<>>), Meta(81, <<250000>>, <<>>), Meta(84, <<13, 45, 59, 25, 7, 39>>, <<>>),
  Meta(88, <<3, 4, 24, 8>>, <<>>), Meta(89, <<-3, 0>>, <<>>), Meta(89, <<4, 1>>, <<>>), Meta(127, <<0, 0, 59>>, <<58, 76>>), SysEx("SysExMessage", <<126>>, <<0, 9, 1>>, TRUE), SysEx("SysExEscape", <<>>, <<243, 1>>, FALSE) >>
NShapes == Len(Shapes)

\* The open message and its continuation are one shape of two events.
Shape(i) == IF i <= NShapes THEN <<At(Shapes[i], i % 3)>> ELSE <<SysEx("SysExMessage", <<67>>, <<1, 2>>, FALSE), SysEx("SysExContinuation", <<>>, <<3, 4>>, TRUE)>>

\* All events after event a, one track for each; in the middle of a split message as well.
Pairs(a) == Tersely(1, 480, [b \in 1..(NShapes + 1) |-> Shape(a) \o Shape(b)])
PairsOpen(a) ==
  Tersely(1, 480, [b \in 1..(NShapes - 2) |-> <<SysEx("SysExMessage", <<67>>, <<1, 2>>, FALSE)>> \o Shape(Min2(a, NShapes - 2)) \o Shape(b) \o <<SysEx("SysExContinuation", <<>>, <<3, 4>>, TRUE)>>])

\* a, b and then everything.
Few == <<1, 3, 4, 6, 8, 10, 11, 12, 14, 15, 20, 31, 34, 35, 37, 38>>
Triples(a, b) == Tersely(1, 480, [x \in 1..Len(Few) |-> Shape(Few[a]) \o Shape(Few[b]) \o Shape(Few[x])])

\* The same event twice with every pair in between (what is remembered must survive, what is not must not).
Sandwiches(a, b) == Tersely(0, 480, << Shape(Few[a]) \o Shape(Few[b]) \o Shape(Few[a]) \o Shape(15) \o Shape(Few[b]) \o Shape(1) >>)

(* ---- bystanders: events that have no influence on what is around them ------------ *)

Strangers ==
  [x \in 1..256 |-> Voice(11, 2, <<(x - 1) \div 2, IF x % 2 = 1 THEN 0 ELSE 127>>)] \o Shapes
  \o <<Voice(12, 2, <<0>>), Voice(12, 2, <<127>>), Voice(13, 2, <<0>>), Voice(10, 2, <<61>>), Voice(14, 2, <<0>>), Voice(14, 2, <<16383>>), Voice(9, 9, <<61, 64>>), Voice(8, 9, <<61, 64>>), Voice(9, 10, <<61, 1>>),
        Voice(8, 3, <<61, 0>>), Voice(8, 2, <<62, 0>>), Voice(9, 2, <<62, 0>>), Voice(9, 2, <<60, 1>>), Voice(11, 3, <<0, 9>>), Voice(11, 3, <<32, 9>>), Voice(11, 9, <<0, 120>>),
        Meta(32, <<2>>, <<>>), Meta(32, <<9>>, <<>>), Meta(33, <<2>>, <<>>), Meta(0, <<0>>, <<>>), Meta(1, <<>>, <<>>), Meta(3, <<>>, <<>>), Meta(47, <<>>, <<>>), Meta(88, <<4, 4, 24, 8>>, <<>>), Meta(81, <<500000>>, <<>>), Meta(89, <<0, 0>>, <<>>), Meta(89, <<0, 1>>, <<>>),
        SysEx("SysExMessage", <<126>>, <<127, 9, 1>>, TRUE), SysEx("SysExMessage", <<126>>, <<127, 9, 2>>, TRUE), SysEx("SysExMessage", <<65>>, <<16, 66, 18, 64, 0, 127, 0, 65>>, TRUE), SysEx("SysExMessage", <<67>>, <<16, 76, 0, 0, 126, 0>>, TRUE),
        SysEx("SysExMessage", <<127>>, <<127, 4, 1, 0, 0>>, TRUE), SysEx("SysExEscape", <<>>, <<>>, FALSE), SysEx("SysExEscape", <<>>, <<255>>, FALSE), SysEx("SysExEscape", <<>>, <<247>>, FALSE), Meta(127, <<67>>, <<>>)>>

Amid(ev) ==
  LET e == At(ev, 10) IN
  <<Meta(88, <<3, 4, 24, 8>>, <<>>), Meta(89, <<-3, 1>>, <<>>), Voice(11, 2, <<0, 3>>), Voice(11, 2, <<32, 5>>), Voice(9, 2, <<61, 64>>), Voice(9, 2, <<66, 65>>), e, e, At(Voice(8, 2, <<61, 9>>), 7), Voice(12, 2, <<9>>),
    At(Voice(9, 2, <<70, 66>>), 7), e, Meta(89, <<2, 0>>, <<>>), At(Voice(8, 2, <<66, 9>>), 7), e, Voice(8, 2, <<61, 0>>), Voice(12, 2, <<10>>), At(Voice(9, 2, <<63, 67>>), 1000), e, Voice(12, 3, <<10>>), e>>
\* (1: everything in one track; 2: in all tracks of several)
BystanderItems == (1..Len(Strangers)) \X (1..2)
Bystander(x) ==
  LET e == Strangers[x[1]] IN
  IF x[2] = 1 THEN Tersely(0, 96, << <<At(Meta(81, <<400000>>, <<>>), 3)>> \o Amid(e) >>)
  ELSE Tersely(1, 96, << <<Meta(81, <<600000>>, <<>>), At(e, 100), At(Meta(81, <<300000>>, <<>>), 50), e, At(Meta(81, <<700000>>, <<>>), 400)>>, Amid(e), <<Voice(12, 2, <<11>>), Voice(8, 2, <<70, 3>>), e, Voice(9, 2, <<70, 3>>), Voice(12, 2, <<12>>)>> >>)

(* ---- tempos: all the fast ones, and those about half way between two numbers of beats per minute ---- *)

AllTempos == [x \in 1..256 |-> x] \o [x \in 1..768 |-> (120000000 \div (2 * ((x - 1) \div 2) + 21)) + ((x - 1) % 2)]
TempoFile(j) ==
  Tersely(1, 24, << [n \in 1..64 |-> At(Meta(81, <<AllTempos[64 * (j - 1) + n]>>, <<>>), IF n = 1 THEN 0 ELSE 96)],
                    <<Meta(88, <<4, 4, 24, 8>>, <<>>)>> \o [n \in 1..64 |-> At(Voice(9 - (n % 2), 0, <<60, 64>>), 96)] >>)

NOrders == (NShapes + 1) + (NShapes - 2) + 256
Orders(i) ==
  CASE i <= NShapes + 1 -> Pairs(i)
    [] i <= (NShapes + 1) + (NShapes - 2) -> PairsOpen(i - (NShapes + 1))
    [] OTHER -> LET j == i - ((NShapes + 1) + (NShapes - 2)) - 1 IN Triples((j \div 16) + 1, (j % 16) + 1)

(* ---- the edge of the language: files that may or may not be well-formed ------------- *)

\* Meta events of every type with payloads of every small length, made of one byte repeated - or counting up from it.
MetaFills == <<0, 1, 5, 59, 100, 127, 128, 255>>
MetaCase(i) ==
  LET ty == i \div 56
      n == (i \div 8) % 7
      x == MetaFills[(i % 8) + 1]
  IN Raw(<<0, 255, ty, n>> \o [j \in 1..n |-> IF x = 5 THEN (x + j) % 256 ELSE x] \o RawEot)
\* Only types 0..15, and those in use, need all payloads.
MetaTypesTried == {x \in 0..255 : x < 12 \/ x \in {32, 33, 34, 47, 48, 80, 81, 82, 84, 88, 89, 90, 126, 127}}
MetaItems == {i \in 0..(256 * 56 - 1) : (i \div 56) \in MetaTypesTried \/ (i % 56) \in {0, 8, 19}}

\* One payload byte of every fixed size meta event at every value.
Fixed == << <<32, 5>>, <<33, 1>>, <<84, 13, 45, 59, 7, 39>>, <<84, 45, 45, 59, 7, 39>>, <<84, 77, 45, 59, 7, 39>>, <<84, 109, 45, 59, 7, 39>>, <<88, 4, 2, 24, 8>>, <<89, 253, 0>>, <<89, 2, 1>>, <<81, 7, 161, 32>>, <<0, 0, 23>> >>
FixedItems == {<<f, j, x>> \in (1..Len(Fixed)) \X (2..6) \X (0..255) : j <= Len(Fixed[f]) /\ (f < 10 \/ x \in {0, 1, 127, 128, 255})}
FixedCase(q) == LET m == [Fixed[q[1]] EXCEPT ![q[2]] = q[3]] IN Raw(<<0, 255, m[1], Len(m) - 1>> \o Tail(m) \o RawEot)

\* Every status byte, in every context, with various data.
Contexts == << <<>>, <<0, 144, 60, 64>>, <<0, 192, 5>>, <<0, 144, 60, 64, 0, 255, 1, 1, 65>>, <<0, 240, 3, 67, 1, 2>>, <<0, 144, 60, 64, 0, 240, 3, 67, 1, 247>>, <<0, 144, 60, 64, 0, 247, 1, 65>> >>
Datas == << <<0, 0>>, <<64, 65>>, <<1, 128>>, <<128, 1>>, <<>>, <<1>>, <<2, 247, 247>> >>
StatusItems == (0..255) \X (1..Len(Contexts)) \X (1..Len(Datas))
StatusCase(q) == Raw(Contexts[q[2]] \o <<0, q[1]>> \o Datas[q[3]] \o RawEot)

\* ... and on its own.
LoneItems == (0..255) \X (1..Len(Datas))
LoneCase(q) == StatusCase(<<q[1], 1, q[2]>>)

\* Headers.
HeaderItems ==
  {<<1, f, n, m>> : f \in {0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 512, 65535}, n \in {0, 1, 2, 3, 256, 65535}, m \in 0..3}
  \cup {<<2, h, l, 0>> : h \in 0..255, l \in {0, 1, 40, 255}}
  \cup {<<3, n, m, 0>> : n \in 0..12, m \in {6, 14}}
  \cup {<<4, j, x, 0>> : j \in (1..8) \cup (15..22), x \in {0, 1, 32, 77, 84, 100, 114, 109, 255}}
HeaderCase(q) ==
  LET trk == Chunk(TagMTrk, RawEot)
      many == [i \in 0..3 |-> IF i = 0 THEN <<>> ELSE IF i = 1 THEN trk ELSE IF i = 2 THEN trk \o trk ELSE trk \o trk \o trk]
      one == Chunk(TagMThd, BE16(1) \o BE16(1) \o BE16(96)) \o trk
  IN CASE q[1] = 1 -> Chunk(TagMThd, BE16(q[2]) \o BE16(q[3]) \o BE16(96)) \o many[q[4]]
       [] q[1] = 2 -> Chunk(TagMThd, BE16(1) \o BE16(1) \o <<q[2], q[3]>>) \o trk
       [] q[1] = 3 -> TagMThd \o BE32(q[2]) \o SubSeq(BE16(1) \o BE16(1) \o BE16(96) \o <<0, 0, 0, 0, 0, 0, 0, 0>>, 1, IF q[3] = 6 THEN Min2(q[2], 6) ELSE q[2]) \o trk
       [] q[1] = 4 -> Replace(one, q[2], q[3])

\* Variable length quantities: every pattern of up to five bytes over the boundary values, as delta and as length of a text, a packet.
VlqBytes == <<0, 1, 127, 128, 129, 255>>
VlqItems == {<<k, a, b, x, y>> : k \in 1..3, a \in 1..6, b \in 0..6, x \in 0..6, y \in 0..6}
VlqProper == {q \in VlqItems : (q[3] = 0 => q[4] = 0) /\ (q[4] = 0 => q[5] = 0)}
VlqCase(q) ==
  LET bs == SelectSeq(<<q[2], q[3], q[4], q[5]>>, LAMBDA j : j > 0)
      v == [j \in 1..Len(bs) |-> VlqBytes[bs[j]]]
      r == VlqAt(v, 1, Len(v))
      n == IF r.ok /\ r.v <= 300 THEN r.v ELSE 2
  IN CASE q[1] = 1 -> Raw(v \o <<144, 60, 64>> \o RawEot)
       [] q[1] = 2 -> Raw(<<0, 255, 1>> \o v \o [j \in 1..n |-> 65] \o RawEot)
       [] q[1] = 3 -> Raw(<<0, 240>> \o v \o [j \in 1..n |-> IF j = n THEN 247 ELSE 67] \o RawEot)

\* Sequences of SysEx packets: up to four of the packets below, and something after.
Packets == << <<240, 2, 67, 1>>, <<240, 3, 67, 1, 247>>, <<247, 2, 3, 4>>, <<247, 3, 3, 4, 247>>, <<247, 0>>, <<240, 0>>, <<144, 60, 64>>, <<255, 1, 1, 65>>, <<247, 1, 247>>, <<240, 1, 247>>, <<240, 4, 0, 1, 2, 247>>, <<240, 1, 67>> >>
PacketItems == {<<a, b, x, y>> : a \in 1..12, b \in 0..12, x \in 0..12, y \in {0, 3, 4, 5}}
PacketProper == {q \in PacketItems : (q[2] = 0 => q[3] = 0) /\ (q[3] = 0 => q[4] = 0)}
PacketCase(q) ==
  LET pk(j) == IF j = 0 THEN <<>> ELSE <<0>> \o Packets[j] IN Raw(pk(q[1]) \o pk(q[2]) \o pk(q[3]) \o pk(q[4]) \o RawEot)

\* Files to damage: one with everything, and some small ones.
Sampler == << <<Meta(3, <<>>, <<65, 66>>), Meta(81, <<500000>>, <<>>), Meta(88, <<4, 4, 24, 8>>, <<>>), Meta(84, <<1, 2, 3, 25, 4, 5>>, <<>>)>>,
              <<Meta(89, <<-2, 0>>, <<>>), Voice(11, 0, <<0, 1>>), Voice(12, 0, <<5>>), At(Voice(9, 0, <<60, 64>>), 200), Voice(9, 0, <<64, 64>>), At(Voice(8, 0, <<60, 64>>), 96), Voice(14, 2, <<8192>>)>>,
              <<SysEx("SysExMessage", <<67>>, <<1, 2>>, FALSE), SysEx("SysExContinuation", <<>>, <<3>>, TRUE), SysEx("SysExEscape", <<>>, <<243, 1>>, FALSE), Meta(127, <<0, 0, 59>>, <<1, 2>>), SysEx("SysExMessage", <<0, 0, 59>>, <<1>>, TRUE), Meta(0, <<7>>, <<>>), Meta(32, <<5>>, <<>>)>> >>
Bases == << Tersely(1, 480, Sampler), Tersely(0, 59392 + 40, <<Sampler[2]>>), Plainly(2, 96, <<Sampler[3], <<>> >>) \o Chunk(<<88, 70, 73, 72>>, <<1, 2, 3>>) >>
Base(x) == Bases[x]

\* Truncations: the file as it is, and with the length of a single track corrected.
CutItems == {<<x, n, w>> \in (1..3) \X (0..260) \X (0..1) : n < Len(Base(x)) /\ (w = 1 => x = 2 /\ n >= 22)}
CutCase(q) ==
  LET b == SubSeq(Base(q[1]), 1, q[2]) IN
  IF q[3] = 0 THEN b ELSE SubSeq(b, 1, 18) \o BE32(q[2] - 22) \o SubSeq(b, 23, q[2])

\* One byte of a file at every value.
ByteItems == {<<x, j, v>> \in (1..3) \X (1..260) \X (0..255) : j <= Len(Base(x))}
ByteCase(q) == Replace(Base(q[1]), q[2], q[3])

(* ---- sources that must be refused ---------------------------------------------------- *)

One == ReadFile(Plainly(0, 480, << <<Voice(9, 0, <<60, 64>>), At(Voice(8, 0, <<60, 64>>), 96)>> >>), FALSE)
SpotOf(ev, delta) == [t |-> 1, e |-> 2, ev |-> ev, delta |-> delta]

BadItems == {<<"text", i, 0>> : i \in 1..Len(BadText)} \cup {<<"json", i, 0>> : i \in 1..Len(BadJson)}
            \cup {<<"event", r, s>> : r \in 0..21, s \in 0..69} \cup {<<"delta", i, s>> : i \in 0..7, s \in 0..2}

BadCase(q, c4) ==
  LET no == <<Improper, Improper>>
      spot(form) == IF q[1] = "delta" THEN SpotOf(One.tracks[1].evs[2], BadDelta(q[2])) ELSE SpotOf(BadEvent(q[2], q[3], form, c4), "1")
  IN CASE q[1] = "text" -> [docs |-> <<BadText[q[2]]>>, ops |-> <<AsmOp("asmtext", 1, c4, "")>>, meta |-> <<Improper>>]
       [] q[1] = "json" -> [docs |-> <<BadJson[q[2]]>>, ops |-> <<AsmOp("asmjson", 1, c4, "")>>, meta |-> <<Improper>>]
       [] OTHER -> [docs |-> <<TextSource(One, 37 * q[3], spot("text")), JsonSource(One, 41 * q[3], spot("json"))>>, ops |-> <<AsmOp("asmtext", 1, c4, ""), AsmOp("asmjson", 2, c4, "")>>, meta |-> no]

(* ---- transposition: every distance ------------------------------------------------------ *)

Scale == << [k \in 1..30 |-> KeyOf(k - 1)] \o [n \in 1..128 |-> Voice(9 - (n % 2), n % 16, <<n - 1, n - 1>>)] >>
ShiftItems == -140..140 \cup {-1000, 1000, -100000, 100000}

(* ---- the command line: every command, option and place to write --------------------------- *)

Inputs == << Base(1), Base(2), Plainly(0, 96, <<Sampler[2]>>), Plainly(1, 96, <<>>), Plainly(1, 96, << <<>>, Sampler[2], Sampler[3] >>), SubSeq(Base(1), 1, Len(Base(1)) - 5), <<>>, Base(1) \o <<0>> >>
ProperInputs == 1..5

\* x: the input, the operation, verbosity, argument, place
CommandItems ==
  {<<f, o, v, a, w>> \in (1..Len(Inputs)) \X (1..Len(CliAll)) \X (1..4) \X (1..Len(Delimiters)) \X (1..8) :
     LET op == CliAll[o] IN
     /\ a > 1 => (op \in {"cli-text", "cli-text-out", "cli-split"} /\ a = 2) \/ (op = "cli-tsv" /\ v = 1 /\ w = 1)
     /\ w \in {3, 4, 7} => o > Len(CliStdout) /\ o <= Len(CliStdout) + Len(CliFiles) + 1   \* self, nodir, dir: only where there is a file to write
     /\ op \in Range(CliSplits) => w \notin {3, 7}}
Places == <<"", "new", "self", "nodir", "full", "missing", "dir", "indir">>
CommandCase(x) ==
  LET op == CliAll[x[2]]
      R == [i \in 1..16 |-> Mix(40000 + 31 * x[1] + 7 * x[2] + x[3], i)]
  IN [docs |-> <<Inputs[x[1]]>>, ops |-> <<Cli(op, x[3] % 2 = 0, CliShift(op, R), Verbosity[x[3]], IF op = "cli-tsv" THEN Delimiters[x[4]] ELSE IF x[4] = 2 THEN "default" ELSE "", Places[x[5]], NameOf("", R[10]))>>]

\* Assembly: two proper sources and two others, every place.
AssemblyItems == {<<f, o, w, m>> \in (1..6) \X (1..2) \X (1..8) \X (1..Len(Names)) : o = 2 => Places[w] \in {"", "new", "missing", "dir", "indir"}}
AssemblyCase(x) ==
  LET d == ReadFile(Base(1), FALSE)
      text == <<TextSource(d, 37, NoBad), "MThd format:9" \o NL, "">>
      json == <<JsonSource(d, 37, NoBad), "{", "">>
      n == ((x[1] - 1) \div 2) + 1
      isText == x[1] % 2 = 1
  IN [docs |-> <<IF isText THEN text[n] ELSE json[n]>>, ops |-> <<CliAsm(<<"cli-asm", "cli-asm-default">>[x[2]], 1, FALSE, IF isText THEN "txt" ELSE "json", Places[x[3]], Names[x[4]])>>,
      meta |-> <<IF n = 1 THEN Proper(d) ELSE Improper>>]

(* ---- items ------------------------------------------------------------------------------- *)

Items ==
  CASE Set = "values" -> 1..NValues
    [] Set = "extremes" -> 1..NExtremes
    [] Set = "orders" -> 1..NOrders
    [] Set = "long" -> 1..4
    [] Set = "huge" -> 1..8
    [] Set = "bulky" -> 1..2
    [] Set = "lone" -> LoneItems
    [] Set = "metas" -> MetaItems
    [] Set = "fixed" -> FixedItems
    [] Set = "status" -> StatusItems
    [] Set = "headers" -> HeaderItems
    [] Set = "vlqs" -> VlqProper
    [] Set = "packets" -> PacketProper
    [] Set = "cuts" -> CutItems
    [] Set = "bytes" -> ByteItems
    [] Set = "bystanders" -> BystanderItems
    [] Set = "tempos" -> 1..16
    [] Set = "badsources" -> BadItems
    [] Set = "shifts" -> ShiftItems
    [] Set = "commands" -> CommandItems
    [] Set = "assemblies" -> AssemblyItems

FileOf(x) ==
  CASE Set = "values" -> Values(x)
    [] Set = "extremes" -> Extremes(x)
    [] Set = "orders" -> Orders(x)
    [] Set = "long" -> VeryLong(x)
    [] Set = "huge" -> Huge(x)
    [] Set = "bulky" -> Bulky(x)
    [] Set = "lone" -> LoneCase(x)
    [] Set = "bystanders" -> Bystander(x)
    [] Set = "tempos" -> TempoFile(x)
    [] Set = "metas" -> MetaCase(x)
    [] Set = "fixed" -> FixedCase(x)
    [] Set = "status" -> StatusCase(x)
    [] Set = "headers" -> HeaderCase(x)
    [] Set = "vlqs" -> VlqCase(x)
    [] Set = "packets" -> PacketCase(x)
    [] Set = "cuts" -> CutCase(x)
    [] Set = "bytes" -> ByteCase(x)

\* Entropy for the choices that the plan leaves open (the convention, a style, an interval), a function of the item.
\* A number for every item (differs for most).
Weight(x) == IF Set = "shifts" THEN x + 200000
             ELSE IF Set \in {"values", "extremes", "orders", "metas", "long", "huge", "bulky", "tempos"} THEN x
             ELSE IF Set = "bystanders" THEN 2 * x[1] + x[2] ELSE IF Set = "lone" THEN 256 * x[2] + x[1]
             ELSE IF Set = "commands" THEN x[1] + 7 * x[2] + 41 * x[3] + 101 * x[4] + 211 * x[5]
             ELSE IF Set \in {"fixed", "headers"} THEN 300 * x[2] + x[3] + x[1]
             ELSE IF Set = "badsources" THEN 70 * x[2] + x[3] ELSE IF Set = "packets" THEN x[1] + 13 * x[2] + 169 * x[3] + 2197 * x[4]
             ELSE IF Set = "vlqs" THEN x[1] + 4 * x[2] + 28 * x[3] + 196 * x[4] + 1372 * x[5]
             ELSE 11 * x[1] + 97 * x[2] + x[3]
Entropy(x, y) == LET w == (Weight(x) % 20000) + 20000 IN [i \in 1..16 |-> Mix(w + y, i)]

Case(x) ==
  IF Set = "badsources" THEN BadCase(x, FALSE)
  ELSE IF Set = "commands" THEN CommandCase(x)
  ELSE IF Set = "assemblies" THEN AssemblyCase(x)
  ELSE IF Set = "shifts" THEN [docs |-> <<Plainly(0, 96, Scale)>>, ops |-> <<Op("transpose", FALSE, x, "")>>]
  ELSE CaseOf(FileOf(x), Entropy(x, 0), Entropy(x, 5000))

GInit == item \in {x \in Items : (Weight(x) % Stride) = Phase} /\ shown = FALSE

GNext == ~shown /\ shown' = TRUE /\ item' = item /\ Show(Case(item))

GSpec == GInit /\ [][GNext]_evars
=============================================================================
