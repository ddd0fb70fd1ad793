--------------------------------- MODULE Smf ---------------------------------
(***************************************************************************)
(* Reading a Standard MIDI File: the chunk structure and the state machine *)
(* that reads one event of a track.  Everything that must recover meaning  *)
(* from bytes - the decoder trace specification and the independent        *)
(* reading of files the program writes - uses these operators.             *)
(***************************************************************************)
EXTENDS Events

(* ---- header ------------------------------------------------------------- *)

TagMThd == <<77, 84, 104, 100>>
TagMTrk == <<77, 84, 114, 107>>

FpsOf == [b \in {232, 231, 227, 226} |-> IF b = 232 THEN 24 ELSE IF b = 231 THEN 25 ELSE IF b = 227 THEN 29 ELSE 30]

Header(fmt, n, div) ==
  IF div < 32768
  THEN [format |-> fmt, tracks |-> n, division |-> div, ppqn |-> div, smpte |-> FALSE, fps |-> 0, sub |-> 0, drop |-> FALSE]
  ELSE LET fps == FpsOf[div \div 256] IN
       [format |-> fmt, tracks |-> n, division |-> div, ppqn |-> 0, smpte |-> TRUE, fps |-> fps, sub |-> div % 256, drop |-> fps = 29]

NoHeader == [format |-> -1, tracks |-> 0, division |-> 0, ppqn |-> 0, smpte |-> FALSE, fps |-> 0, sub |-> 0, drop |-> FALSE]

\* Reads the MThd chunk at the start of b.
HeaderAt(b) ==
  IF Len(b) < 14 \/ SubSeq(b, 1, 4) # TagMThd \/ SubSeq(b, 5, 8) # <<0, 0, 0, 6>>
  THEN [ok |-> FALSE, h |-> NoHeader]
  ELSE LET fmt == U16At(b, 9)
           div == U16At(b, 13)
       IN IF fmt \notin {0, 1, 2} \/ (div >= 32768 /\ (div \div 256) \notin DOMAIN FpsOf)
          THEN [ok |-> FALSE, h |-> NoHeader]
          ELSE [ok |-> TRUE, h |-> Header(fmt, U16At(b, 11), div)]

\* The chunk at b[p]: window [lo..hi] of its data; ok is FALSE for a truncated chunk.
ChunkAt(b, p) ==
  IF p + 7 > Len(b) THEN [ok |-> FALSE, tag |-> <<>>, lo |-> p, hi |-> p - 1]
  ELSE LET n == U32At(b, p + 4) IN
       IF n < 0 \/ p + 7 + n > Len(b) THEN [ok |-> FALSE, tag |-> <<>>, lo |-> p, hi |-> p - 1]
       ELSE [ok |-> TRUE, tag |-> SubSeq(b, p, p + 3), lo |-> p + 8, hi |-> p + 7 + n]

(* ---- one event ----------------------------------------------------------- *)

\* What the reader of a track remembers between events.
TrackInit(lo) ==
  [p |-> lo,            \* next byte
   tick |-> <<>>,       \* absolute tick (big natural)
   run |-> 0,           \* running status, 0 if there is none
   casio |-> FALSE,     \* an F0 packet is waiting for its terminator
   flats |-> FALSE,     \* note names use flats
   names |-> <<>>,      \* channel*128 + note -> were flats in use when the note was last struck
   banks |-> <<>>]      \* channel -> <<MSB, LSB>>

Failed == [ok |-> FALSE, ev |-> NoEvent, st |-> TrackInit(0)]

GetOr(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

\* The payload of a meta event, or ok = FALSE if the data is not legal for the type.
MetaPayload(ty, d) ==
  LET yes(v, s) == [ok |-> TRUE, v |-> v, s |-> s]
      no == [ok |-> FALSE, v |-> <<>>, s |-> <<>>]
      n == Len(d)
  IN IF ty \in TextTypes THEN yes(<<>>, d)
     ELSE CASE ty = 0 -> IF n = 2 THEN yes(<<d[1] * 256 + d[2]>>, <<>>) ELSE no
       [] ty = 32 -> IF n = 1 /\ d[1] <= 15 THEN yes(<<d[1]>>, <<>>) ELSE no
       [] ty = 33 -> IF n = 1 /\ d[1] <= 127 THEN yes(<<d[1]>>, <<>>) ELSE no
       [] ty = 47 -> IF n = 0 THEN yes(<<>>, <<>>) ELSE no
       [] ty = 81 -> IF n = 3 THEN yes(<<d[1] * 65536 + d[2] * 256 + d[3]>>, <<>>) ELSE no
       [] ty = 84 ->
            IF n # 5 THEN no
            ELSE LET rate == <<24, 25, 29, 30>>[((d[1] \div 32) % 4) + 1]
                     hour == d[1] % 32
                 IN IF hour <= 24 /\ d[2] <= 59 /\ d[3] <= 59 /\ d[4] < rate /\ d[5] <= 100
                    THEN yes(<<hour, d[2], d[3], rate, d[4], d[5]>>, <<>>) ELSE no
       [] ty = 88 -> IF n = 4 /\ d[2] <= 7 THEN yes(<<d[1], 2^d[2], d[3], d[4]>>, <<>>) ELSE no
       [] ty = 89 ->
            IF n = 2 /\ (d[1] <= 7 \/ d[1] >= 249) /\ d[2] \in {Major, Minor}
            THEN yes(<<IF d[1] > 127 THEN d[1] - 256 ELSE d[1], d[2]>>, <<>>) ELSE no
       [] ty = 127 ->
            IF n = 0 THEN no
            ELSE IF d[1] = 0 /\ n > 2 THEN yes(SubSeq(d, 1, 3), SubSeq(d, 4, n))
            ELSE yes(<<d[1]>>, SubSeq(d, 2, n))
       [] OTHER -> no

\* The SysEx packet with status s (F0 or F7) and data d.
SysExPayload(s, d, casio) ==
  LET n == Len(d)
      ends == n > 0 /\ d[n] = 247
      no == [ok |-> FALSE, tag |-> "", v |-> <<>>, s |-> <<>>, f |-> FALSE]
  IN IF s = 240 THEN
       IF casio \/ n = 0 THEN no
       ELSE LET k == IF n > 2 /\ d[1] = 0 /\ d[2] < 128 /\ d[3] < 128 THEN 3 ELSE 1
                rest == SubSeq(d, k + 1, n)
                single == rest # <<>> /\ ends
            IN [ok |-> TRUE, tag |-> "SysExMessage", v |-> SubSeq(d, 1, k),
                s |-> IF single THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest, f |-> single]
     ELSE IF casio THEN
       [ok |-> TRUE, tag |-> "SysExContinuation", v |-> <<>>, s |-> IF ends THEN SubSeq(d, 1, n - 1) ELSE d, f |-> ends]
     ELSE [ok |-> TRUE, tag |-> "SysExEscape", v |-> <<>>, s |-> d, f |-> FALSE]

\* The raw bytes a packet with no data ends with is its length byte, which cannot be F7.
CasioAfter(s, d, casio) ==
  LET ends == Len(d) > 0 /\ d[Len(d)] = 247 IN
  IF s = 240 THEN ~ends ELSE casio /\ ~ends

\* Reads the event at st.p in the window that ends at e.
TrackStep(b, e, st, c4) ==
  LET q == VlqAt(b, st.p, e) IN
  IF ~q.ok \/ q.p > e THEN Failed
  ELSE
  LET p0 == q.p
      tick == BigAdd(st.tick, BigOf(q.v))
      fresh == b[p0] >= 128
      s == IF fresh THEN b[p0] ELSE st.run
      p1 == IF fresh THEN p0 + 1 ELSE p0       \* first byte after the status
      base == [NoEvent EXCEPT !.delta = q.v, !.tick = BigDec(tick), !.st = s]
  IN
  IF s < 128 THEN Failed
  ELSE IF s = 255 THEN
    IF p1 > e THEN Failed
    ELSE LET n == VlqAt(b, p1 + 1, e) IN
      IF ~n.ok \/ n.p + n.v - 1 > e THEN Failed
      ELSE LET ty == b[p1]
               d == SubSeq(b, n.p, n.p + n.v - 1)
               pl == MetaPayload(ty, d)
               nx == [st EXCEPT !.p = n.p + n.v, !.tick = tick, !.run = 0]
           IN IF ty \notin MetaTypes \/ ~pl.ok THEN Failed
              ELSE [ok |-> TRUE,
                    ev |-> [base EXCEPT !.tag = MetaTag(ty), !.ty = ty, !.v = pl.v, !.s = pl.s,
                                        !.name = IF ty = 89 THEN KeyName(pl.v[1], pl.v[2]) ELSE "",
                                        !.raw = SubSeq(b, st.p, n.p + n.v - 1)],
                    st |-> IF ty = 89 THEN [nx EXCEPT !.flats = pl.v[1] < 0] ELSE nx]
  ELSE IF s \in {240, 247} THEN
    LET n == VlqAt(b, p1, e) IN
      IF ~n.ok \/ n.p + n.v - 1 > e THEN Failed
      ELSE LET d == SubSeq(b, n.p, n.p + n.v - 1)
               pl == SysExPayload(s, d, st.casio)
           IN IF ~pl.ok THEN Failed
              ELSE [ok |-> TRUE,
                    ev |-> [base EXCEPT !.tag = pl.tag, !.v = pl.v, !.s = pl.s, !.f = pl.f,
                                        !.raw = SubSeq(b, st.p, n.p + n.v - 1)],
                    st |-> [st EXCEPT !.p = n.p + n.v, !.tick = tick, !.run = 0, !.casio = CasioAfter(s, d, st.casio)]]
  ELSE IF s > 240 THEN Failed
  ELSE
    LET hi == s \div 16
        ch == s % 16
        k == VoiceLen(hi)
        p2 == p1 + k
        d == SubSeq(b, p1, p2 - 1)
        key == ch * 128 + d[1]
        tag == VoiceTag(hi)
        nx == [st EXCEPT !.p = p2, !.tick = tick, !.run = s]
        bank == GetOr(st.banks, ch, <<0, 0>>)
    IN IF p2 - 1 > e \/ \E i \in 1..k : b[p1 + i - 1] > 127 THEN Failed
       ELSE [ok |-> TRUE,
             ev |-> [base EXCEPT !.tag = tag, !.ch = ch,
                                 !.v = IF tag = "PitchBend" THEN <<d[1] * 128 + d[2]>> ELSE d,
                                 !.name = IF tag = "NoteOn" THEN NoteName(d[1], st.flats, c4)
                                          ELSE IF tag = "NoteOff" THEN NoteName(d[1], GetOr(st.names, key, st.flats), c4)
                                          ELSE "",
                                 !.alias = IF tag \in NoteTags THEN NoteName(d[1], st.flats, c4) ELSE "",
                                 !.bank = IF tag = "ProgramChange" THEN bank[1] * 128 + bank[2] ELSE -1,
                                 !.raw = SubSeq(b, st.p, p2 - 1)],
             st |-> CASE tag = "NoteOn" -> [nx EXCEPT !.names = (key :> st.flats) @@ st.names]
                      [] tag = "Controller" /\ d[1] = 0 -> [nx EXCEPT !.banks = (ch :> <<d[2], bank[2]>>) @@ st.banks]
                      [] tag = "Controller" /\ d[1] = 32 -> [nx EXCEPT !.banks = (ch :> <<bank[1], d[2]>>) @@ st.banks]
                      [] OTHER -> nx]

(* ---- whole files, as functions ------------------------------------------- *)

RECURSIVE ReadEvents(_, _, _, _, _)
ReadEvents(b, e, st, c4, acc) ==
  IF st.p > e THEN [ok |-> TRUE, evs |-> acc]
  ELSE LET r == TrackStep(b, e, st, c4) IN
       IF ~r.ok THEN [ok |-> FALSE, evs |-> acc]
       ELSE ReadEvents(b, e, r.st, c4, Append(acc, r.ev))

RECURSIVE ReadChunks(_, _, _, _)
ReadChunks(b, p, c4, acc) ==
  IF p > Len(b) THEN [ok |-> TRUE, tracks |-> acc]
  ELSE LET c == ChunkAt(b, p) IN
       IF ~c.ok THEN [ok |-> FALSE, tracks |-> acc]
       ELSE IF c.tag # TagMTrk THEN ReadChunks(b, c.hi + 1, c4, acc)
       ELSE LET r == ReadEvents(b, c.hi, TrackInit(c.lo), c4, <<>>) IN
            IF ~r.ok THEN [ok |-> FALSE, tracks |-> acc]
            ELSE ReadChunks(b, c.hi + 1, c4,
                   Append(acc, [n |-> Len(acc), length |-> c.hi - c.lo + 1, raw |-> SubSeq(b, c.lo - 8, c.hi), evs |-> r.evs]))

Rejected == [ok |-> FALSE, h |-> NoHeader, tracks |-> <<>>]

\* The document a file denotes; ok is FALSE exactly when the file must be refused.
ReadFile(b, c4) ==
  LET h == HeaderAt(b) IN
  IF ~h.ok THEN Rejected
  ELSE LET r == ReadChunks(b, 15, c4, <<>>) IN
       IF ~r.ok \/ Len(r.tracks) # h.h.tracks THEN Rejected
       ELSE [ok |-> TRUE, h |-> h.h, tracks |-> r.tracks]

(* What a document means, once its encoding is forgotten. *)
Meanings(evs) == [i \in 1..Len(evs) |-> Meaning(evs[i])]
DocMeaning(d) == [h |-> d.h, tracks |-> [i \in 1..Len(d.tracks) |-> Meanings(d.tracks[i].evs)]]

(* ---- writing -------------------------------------------------------------- *)

Chunk(tag, data) == tag \o BE32(Len(data)) \o data

HeaderBytes(h) == Chunk(TagMThd, BE16(h.format) \o BE16(h.tracks) \o BE16(h.division))

RECURSIVE TrackData(_, _)
TrackData(evs, i) ==
  IF i > Len(evs) THEN <<>> ELSE Vlq(evs[i].delta) \o EventBytes(evs[i]) \o TrackData(evs, i + 1)

\* A (not: the) file for a document: explicit status bytes, shortest quantities.
RECURSIVE TracksBytes(_, _)
TracksBytes(ts, i) == IF i > Len(ts) THEN <<>> ELSE Chunk(TagMTrk, TrackData(ts[i], 1)) \o TracksBytes(ts, i + 1)

FileBytes(h, ts) == HeaderBytes(h) \o TracksBytes(ts, 1)

(* ---- well-formedness of an encoding --------------------------------------- *)

\* Every quantity of the event at st.p is written in the fewest bytes.
ShortestVlq(b, p, e) == LET q == VlqAt(b, p, e) IN q.ok /\ SubSeq(b, p, q.p - 1) = Vlq(q.v)
=============================================================================
