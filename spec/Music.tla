-------------------------------- MODULE Music --------------------------------
(***************************************************************************)
(* What the operations mean: transposition, note extraction, validation.   *)
(***************************************************************************)
EXTENDS Smf

Clamp7(n) == IF n < 0 THEN 0 ELSE IF n > 127 THEN 127 ELSE n

Mod12(n) == ((n % 12) + 12) % 12

(* ---- transposition ---------------------------------------------------------- *)

\* Pitch class of the tonic of a key.
Tonic(acc, type) == Mod12(acc * 7 + (IF type = Minor THEN 9 ELSE 0))

\* The keys that denote a transposed key signature: same mode, tonic moved, at most six accidentals.
TransposedKeys(acc, type, n) ==
  {<<a, type>> : a \in {x \in -6..6 : Tonic(x, type) = Mod12(Tonic(acc, type) + n)}}

\* Is y the transposition of event x by n semitones?
IsTransposed(x, y, n) ==
  IF x.tag \in NoteTags THEN Meaning(y) = Meaning([x EXCEPT !.v = <<Clamp7(x.v[1] + n), x.v[2]>>])
  ELSE IF x.tag = "KeySignature" THEN Meaning([y EXCEPT !.v = x.v]) = Meaning(x) /\ y.v \in TransposedKeys(x.v[1], x.v[2], n)
  ELSE Meaning(y) = Meaning(x)

(* ---- note extraction ----------------------------------------------------------- *)

\* The tempo map of a document: tempo changes of the first track, <<tick, microseconds per quarter note>> in file order.
RECURSIVE TicksOf(_, _, _)
TicksOf(evs, i, t) == IF i > Len(evs) THEN <<>> ELSE LET n == BigAdd(t, BigOf(evs[i].delta)) IN <<n>> \o TicksOf(evs, i + 1, n)

RECURSIVE TempoMap(_, _, _)
TempoMap(evs, ticks, i) ==
  IF i > Len(evs) THEN <<>>
  ELSE (IF evs[i].tag = "Tempo" THEN << [tick |-> ticks[i], tempo |-> evs[i].v[1]] >> ELSE <<>>) \o TempoMap(evs, ticks, i + 1)

\* Elapsed (microseconds * ppqn) at 'tick', from the tempo map.
RECURSIVE Elapsed(_, _, _, _, _)
Elapsed(map, i, from, tempo, tick) ==
  IF i > Len(map) \/ BigLE(tick, map[i].tick) THEN BigMul(BigSub(tick, from), BigOf(tempo))
  ELSE BigAdd(BigMul(BigSub(map[i].tick, from), BigOf(tempo)), Elapsed(map, i + 1, map[i].tick, map[i].tempo, tick))

\* Milliseconds, rounded to nearest (half up) from whole nanoseconds.
Millis(map, tick, ppqn) ==
  LET ns == BigDiv(BigMulS(Elapsed(map, 1, <<>>, 500000, tick), 1000), ppqn)
  IN BigDiv(BigDiv(BigAdd(ns, BigOf(500000)), 1000), 1000)

\* One pass over a track. s: pending (channel*128+note -> [ms, vel, flats]), flats, out.
RECURSIVE Pair(_, _, _, _, _)
Pair(evs, ms, i, s, z) ==
  IF i > Len(evs) THEN s.out
  ELSE
  LET ev == evs[i]
      key == ev.ch * 128 + ev.v[1]
      note(k, on, at) ==
        [ch |-> k \div 128, note |-> Clamp7((k % 128) + z.n), vel |-> on.vel,
         name |-> NoteName(Clamp7((k % 128) + z.n), on.flats, z.c4),
         start |-> BigDec(on.ms), end |-> BigDec(at), dur |-> BigDec(BigSub(at, on.ms))]
      without(k) == [x \in DOMAIN s.pending \ {k} |-> s.pending[x]]
      next ==
        IF ev.tag = "KeySignature" THEN [s EXCEPT !.flats = ev.v[1] < 0]
        ELSE IF ev.tag = "NoteOn" /\ ev.v[2] > 0 THEN
          IF key \in DOMAIN s.pending THEN s
          ELSE [s EXCEPT !.pending = (key :> [ms |-> ms[i], vel |-> ev.v[2], flats |-> s.flats]) @@ s.pending]
        ELSE IF ev.tag \in NoteTags THEN
          IF key \notin DOMAIN s.pending THEN s
          ELSE [s EXCEPT !.pending = without(key), !.out = Append(s.out, note(key, s.pending[key], ms[i]))]
        ELSE IF ev.tag = "EndOfTrack" THEN
          LET ks == SetToSortSeq(DOMAIN s.pending, LAMBDA a, b : a < b) IN
          [s EXCEPT !.pending = <<>>, !.out = s.out \o [j \in 1..Len(ks) |-> note(ks[j], s.pending[ks[j]], ms[i])]]
        ELSE s
  IN Pair(evs, ms, i + 1, next, z)

RECURSIVE NotesOf(_, _, _, _)
NotesOf(ts, i, map, z) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET evs == ts[i].evs
           ticks == TicksOf(evs, 1, <<>>)
           ms == [j \in 1..Len(evs) |-> IF evs[j].tag \in NoteTags \cup {"EndOfTrack"} THEN Millis(map, ticks[j], z.ppqn) ELSE <<>>]
       IN Pair(evs, ms, 1, [pending |-> <<>>, flats |-> FALSE, out |-> <<>>], z) \o NotesOf(ts, i + 1, map, z)

NoteTracks(d) == IF d.h.format = 0 THEN d.tracks ELSE Tail(d.tracks)

\* The notes of a document, in order; ok is FALSE when there is no metrical time to express them in.
Notes(d, n, c4) ==
  IF d.tracks = <<>> THEN [ok |-> TRUE, notes |-> <<>>]
  ELSE IF d.h.ppqn = 0 THEN [ok |-> FALSE, notes |-> <<>>]
  ELSE LET evs == d.tracks[1].evs
           map == TempoMap(evs, TicksOf(evs, 1, <<>>), 1)
       IN [ok |-> TRUE, notes |-> NotesOf(NoteTracks(d), 1, map, [n |-> n, c4 |-> c4, ppqn |-> d.h.ppqn])]

\* Documents for which the above is what the MIDI specification says: format 0 with one track, or format 1 with all
\* tempo changes in the first track.
NotesSpecified(d) ==
  \/ d.tracks = <<>>
  \/ d.h.format = 0 /\ Len(d.tracks) = 1
  \/ d.h.format = 1 /\ \A i \in 2..Len(d.tracks) : \A j \in 1..Len(d.tracks[i].evs) : d.tracks[i].evs[j].tag # "Tempo"

(* ---- the click track --------------------------------------------------------------- *)

\* Beats per minute of a tempo, rounded to the nearest.
Bpm(us) == (120000000 + us) \div (2 * us)

Fraction(v) == ToString(v[1]) \o "/" \o ToString(v[2])

\* The events that matter: tempo changes of the first track, time signatures and the end of the second, in order of time (tempo changes first).
RECURSIVE Timed(_, _, _, _)
Timed(evs, ticks, i, tags) ==
  IF i > Len(evs) THEN <<>>
  ELSE (IF evs[i].tag \in tags THEN << [tick |-> ticks[i], tag |-> evs[i].tag, v |-> evs[i].v] >> ELSE <<>>) \o Timed(evs, ticks, i + 1, tags)

RECURSIVE Merged(_, _)
Merged(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF BigLE(a[1].tick, b[1].tick) THEN <<a[1]>> \o Merged(Tail(a), b) ELSE <<b[1]>> \o Merged(a, Tail(b))

ClickEvents(d) ==
  LET one == d.tracks[1].evs
      two == d.tracks[2].evs
  IN Merged(Timed(one, TicksOf(one, 1, <<>>), 1, {"Tempo"}), Timed(two, TicksOf(two, 1, <<>>), 1, {"TimeSignature", "EndOfTrack"}))

\* Whole bars between two ticks.
BarsBetween(from, tick, sig, ppqn) == BigDiv(BigDiv(BigMulS(BigSub(tick, from), sig[2]), 4 * ppqn), sig[1])
NoBars == [bar |-> 1, first |-> 1, origin |-> <<>>, sig |-> <<>>, tempo |-> 120, ok |-> TRUE, at |-> <<>>]

\* s.at: bar -> what is said about it. s.ok: so far the bars are well defined.
BarStep(s, e, ppqn) ==
  LET n == IF s.sig = <<>> THEN <<>> ELSE BarsBetween(s.origin, e.tick, s.sig, ppqn)
      fits == Len(n) <= 2
      bar == IF s.sig = <<>> \/ ~fits THEN s.bar ELSE s.first + BigSmall(n)
      line == s.sig = <<>> \/ BigMulS(BigSub(e.tick, s.origin), s.sig[2]) = BigMul(BigMulS(BigOf(4 * ppqn), s.sig[1]), n)
      put(tempo, sig, shown) == [b \in DOMAIN s.at \cup {bar} |-> IF b = bar THEN [bar |-> shown, tempo |-> tempo, sig |-> sig] ELSE s.at[b]]
      was == IF bar \in DOMAIN s.at THEN s.at[bar].sig ELSE ""
  IN CASE e.tag = "Tempo" -> [s EXCEPT !.bar = bar, !.tempo = IF e.v[1] = 0 THEN 0 ELSE Bpm(e.v[1]), !.at = put(IF e.v[1] = 0 THEN 0 ELSE Bpm(e.v[1]), was, bar), !.ok = s.ok /\ fits /\ e.v[1] > 0]
       [] e.tag = "TimeSignature" ->
            IF e.v[1] = 0 THEN [s EXCEPT !.ok = FALSE]
            ELSE [s EXCEPT !.bar = bar, !.first = bar, !.origin = e.tick, !.sig = e.v, !.at = put(s.tempo, Fraction(e.v), bar),
                           !.ok = s.ok /\ fits /\ line /\ (s.sig = <<>> => e.tick = <<>>)]
       [] OTHER -> [s EXCEPT !.bar = bar, !.at = put(s.tempo, IF s.sig = <<>> THEN "" ELSE Fraction(s.sig), bar - 1), !.ok = s.ok /\ fits /\ s.sig # <<>>]

RECURSIVE Bars(_, _, _, _)
Bars(list, i, s, ppqn) == IF i > Len(list) \/ ~s.ok THEN s ELSE Bars(list, i + 1, BarStep(s, list[i], ppqn), ppqn)

\* Documents whose bars are well defined: metrical format 1 files whose second track has a time signature at its start, all others on bar
\* lines, and one end.
ClickSpecified(d) ==
  /\ d.h.format = 1 /\ d.h.ppqn > 0 /\ Len(d.tracks) > 1
  /\ LET evs == d.tracks[2].evs IN evs # <<>> /\ \A i \in 1..Len(evs) : (evs[i].tag = "EndOfTrack") = (i = Len(evs))
  /\ Bars(ClickEvents(d), 1, NoBars, d.h.ppqn).ok

\* One line per bar about which there is something to say, then one per span between them. (Changes in the bar in which the track ends
\* belong to the closing entry.)
ClickLines(d) ==
  LET at == Bars(ClickEvents(d), 1, NoBars, d.h.ppqn).at
      bars == SetToSortSeq(DOMAIN at, LAMBDA a, b : a < b)
      list == [i \in 1..Len(bars) |-> at[bars[i]]]
      rest(x) == "tempo:" \o ToString(x.tempo) \o " time-signature" \o (IF x.sig = "" THEN "" ELSE " " \o x.sig)
  IN [i \in 1..Len(list) |-> "bar " \o ToString(list[i].bar) \o " " \o rest(list[i])]
     \o [i \in 1..(Len(list) - 1) |-> "bars " \o ToString(list[i].bar) \o ":" \o ToString(list[i + 1].bar - 1) \o " " \o rest(list[i])]

(* ---- validation ------------------------------------------------------------------ *)

Conductor == {"Tempo", "TimeSignature", "TrackName", "SMPTEOffset", "Copyright", "EndOfTrack"}

TypeName(tag) == IF tag = "SysExContinuation" THEN "SysExContinuationMessage" ELSE IF tag = "SysExEscape" THEN "SysExEscapeMessage" ELSE tag

Complaint(kind, t, at, tag) == kind \o " " \o ToString(t) \o " " \o at \o " " \o TypeName(tag)

IsMsb(ev) == ev.tag = "Controller" /\ ev.v[1] = 0
IsLsb(ev) == ev.tag = "Controller" /\ ev.v[1] = 32

TrackComplaints(evs, t, fmt) ==
  LET n == Len(evs)
      misplaced == {i \in 1..n : fmt = 1 /\ IF t = 0 THEN evs[i].tag \notin Conductor ELSE evs[i].tag \in {"Tempo", "SMPTEOffset"}}
      early == {i \in 1..(n - 1) : evs[i].tag = "EndOfTrack"}
      noEot == \A i \in 1..n : evs[i].tag # "EndOfTrack"
      msb == {i \in 1..(n - 1) : IsMsb(evs[i]) /\ ~IsLsb(evs[i + 1])}
      lsb == {i \in 1..n : IsLsb(evs[i]) /\ (i = 1 \/ ~IsMsb(evs[i - 1]))}
      cross == {i \in 1..(n - 1) : IsMsb(evs[i]) /\ IsLsb(evs[i + 1]) /\ evs[i].ch # evs[i + 1].ch}
      list(S, f(_)) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> f(q[k])]
  IN list(misplaced, LAMBDA i : Complaint("unexpected", t, "-", evs[i].tag))
     \o list(early, LAMBDA i : Complaint("eot-not-last", t, ToString(i), "EndOfTrack"))
     \o (IF noEot THEN << Complaint("eot-missing", t, "-", "-") >> ELSE <<>>)
     \o list(msb, LAMBDA i : Complaint("msb-without-lsb", t, ToString(i), "Controller"))
     \o list(lsb, LAMBDA i : Complaint("lsb-without-msb", t, ToString(i), "Controller"))
     \o list(cross, LAMBDA i : Complaint("msb-other-channel", t, ToString(i), "Controller"))
     \o list(cross, LAMBDA i : Complaint("lsb-other-channel", t, ToString(i + 1), "Controller"))

RECURSIVE AllComplaints(_, _)
AllComplaints(d, i) == IF i > Len(d.tracks) THEN <<>> ELSE TrackComplaints(d.tracks[i].evs, i - 1, d.h.format) \o AllComplaints(d, i + 1)

Complaints(d) == (IF d.h.format = 0 /\ Len(d.tracks) # 1 THEN <<"format0">> ELSE <<>>) \o AllComplaints(d, 1)

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) \cup Range(b) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
=============================================================================
