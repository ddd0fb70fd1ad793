------------------------------- MODULE MCTrack -------------------------------
(***************************************************************************)
(* What the single pass definitions of Smf.tla and Music.tla compute, said *)
(* declaratively: for every track over a small alphabet, the pairing of    *)
(* notes, the tempo integral, the banks of program changes, the note names *)
(* and the complaints about bank selects are compared with definitions by  *)
(* quantification over the positions of the track.                         *)
(***************************************************************************)
EXTENDS Gen, Music

CONSTANTS Theme,        \* "pairs" | "tempo" | "banks" | "names" | "bars"
          Depth         \* events in the track

VARIABLES evs

At(e, d) == [e EXCEPT !.delta = d]

Alphabet ==
  CASE Theme = "pairs" -> UNION {{Voice(9, ch, <<n, 64>>), Voice(9, ch, <<n, 0>>), Voice(8, ch, <<n, 0>>)} : ch \in {0, 1}, n \in {60, 61}} \cup {Meta(47, <<>>, <<>>)}
    [] Theme = "tempo" -> {At(Meta(81, <<x>>, <<>>), d) : x \in {1, 7}, d \in {0, 1, 3}} \cup {At(Voice(9, 0, <<60, 1>>), d) : d \in {0, 2}}
    [] Theme = "bars" -> {At(Meta(88, x, <<>>), d) : x \in {<<3, 4, 24, 8>>, <<2, 4, 24, 8>>, <<5, 8, 24, 8>>}, d \in {0, 5, 6, 12}} \cup {At(Meta(81, <<x>>, <<>>), d) : x \in {500000}, d \in {0, 1, 7}}
    [] Theme = "banks" -> UNION {{Voice(11, ch, <<0, 1>>), Voice(11, ch, <<0, 2>>), Voice(11, ch, <<32, 3>>), Voice(11, ch, <<7, 4>>), Voice(12, ch, <<9>>)} : ch \in {0, 1}}
    [] Theme = "names" -> {Meta(89, <<-2, 0>>, <<>>), Meta(89, <<0, 1>>, <<>>), Meta(89, <<3, 0>>, <<>>)} \cup UNION {{Voice(9, ch, <<61, 64>>), Voice(9, ch, <<61, 0>>), Voice(8, ch, <<61, 0>>)} : ch \in {0, 1}}

Init == evs = <<>>
Next == Len(evs) < Depth /\ \E e \in Alphabet : evs' = Append(evs, e)
Spec == Init /\ [][Next]_evs

N == Len(evs)

(* ---- notes ------------------------------------------------------------------------ *)

Strikes(i) == evs[i].tag = "NoteOn" /\ evs[i].v[2] > 0
Ends(i) == evs[i].tag = "NoteOff" \/ (evs[i].tag = "NoteOn" /\ evs[i].v[2] = 0)
KeyOf(i) == evs[i].ch * 128 + evs[i].v[1]
\* Does event j stop the key that event i struck?
Stops(i, j) == i < j /\ (evs[j].tag = "EndOfTrack" \/ (Ends(j) /\ KeyOf(j) = KeyOf(i)))

\* Event i begins a note: the key was not sounding - every earlier strike of it was stopped before i.
Begins(i) == Strikes(i) /\ \A h \in 1..(i - 1) : (Strikes(h) /\ KeyOf(h) = KeyOf(i)) => \E j \in (h + 1)..(i - 1) : Stops(h, j)

\* ... and the first event that stops it ends the note (a note that nothing ends is not listed).
Spans == {<<i, j>> \in (1..N) \X (1..N) : Begins(i) /\ Stops(i, j) /\ \A m \in (i + 1)..(j - 1) : ~Stops(i, m)}

\* The pass of Music.tla, with positions in place of times.
Clock == [i \in 1..N |-> BigOf(i)]
Listed == Pair(evs, Clock, 1, [pending |-> <<>>, flats |-> FALSE, out |-> <<>>], [n |-> 0, c4 |-> FALSE, ppqn |-> 1])

PairsRight ==
  Theme = "pairs" =>
    /\ Len(Listed) = Cardinality(Spans)
    /\ {<<x.start, x.end, x.ch, x.note, x.vel>> : x \in Range(Listed)} = {<<ToString(s[1]), ToString(s[2]), evs[s[1]].ch, evs[s[1]].v[1], evs[s[1]].v[2]>> : s \in Spans}
    /\ \A a, b \in 1..Len(Listed) : a < b => BigLE(BigAdd(<<>>, BigOf(CHOOSE j \in 1..N : ToString(j) = Listed[a].end)), BigOf(CHOOSE j \in 1..N : ToString(j) = Listed[b].end))

\* No two notes of one channel and pitch overlap.
NoOverlap == \A s, u \in Spans : (s # u /\ KeyOf(s[1]) = KeyOf(u[1])) => (s[2] < u[1] \/ u[2] < s[1])

(* ---- tempo ------------------------------------------------------------------------- *)

RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f(n)

TickOf(i) == Sum(LAMBDA j : evs[j].delta, i)

\* The tempo in force during tick u (from u to u + 1): that of the last tempo event not after u.
InForce(u) ==
  LET before == {i \in 1..N : evs[i].tag = "Tempo" /\ TickOf(i) <= u} IN
  IF before = {} THEN 500000 ELSE evs[CHOOSE i \in before : \A j \in before : j <= i].v[1]

TempoRight ==
  Theme = "tempo" =>
    LET map == TempoMap(evs, TicksOf(evs, 1, <<>>), 1) IN
    \A t \in 0..(TickOf(N) + 2) :
      BigDec(Elapsed(map, 1, <<>>, 500000, BigOf(t))) = ToString(Sum(LAMBDA u : InForce(u - 1), t))

\* Time does not run backwards.
TempoMonotone ==
  Theme = "tempo" =>
    LET map == TempoMap(evs, TicksOf(evs, 1, <<>>), 1) IN
    \A t \in 0..(TickOf(N) + 1) : BigLE(Elapsed(map, 1, <<>>, 500000, BigOf(t)), Elapsed(map, 1, <<>>, 500000, BigOf(t + 1)))

(* ---- bars --------------------------------------------------------------------------- *)

\* (Two ticks to the quarter note.) Tick u is a bar line when a whole number of bars of the time signature in force before it ends there.
SigBefore(u) == {i \in 1..N : evs[i].tag = "TimeSignature" /\ TickOf(i) < u}
BarLine(u) ==
  LET S == SigBefore(u) IN
  S # {} /\ LET i == CHOOSE x \in S : \A y \in S : y <= x IN (((u - TickOf(i)) * evs[i].v[2]) % (8 * evs[i].v[1])) = 0

BarsRight ==
  Theme = "bars" =>
    LET ticks == TicksOf(evs, 1, <<>>)
        s == Bars(Timed(evs, ticks, 1, {"Tempo", "TimeSignature"}), 1, NoBars, 2)
    IN s.ok /\ s.sig # <<>> => s.bar = 1 + Cardinality({u \in 1..TickOf(N) : BarLine(u)})

(* ---- banks and names: the reader's state against the history ------------------------- *)

Reading == ReadEvents(TrackData(evs, 1), Len(TrackData(evs, 1)), TrackInit(1), FALSE, <<>>)

Latest(S) == CHOOSE i \in S : \A j \in S : j <= i
Select(i, id) ==
  LET S == {j \in 1..(i - 1) : evs[j].tag = "Controller" /\ evs[j].ch = evs[i].ch /\ evs[j].v[1] = id}
  IN IF S = {} THEN 0 ELSE evs[Latest(S)].v[2]

BanksRight ==
  Theme = "banks" => \A i \in 1..N : Reading.evs[i].bank = IF evs[i].tag = "ProgramChange" THEN 128 * Select(i, 0) + Select(i, 32) ELSE -1

FlatsBefore(i) ==
  LET S == {j \in 1..(i - 1) : evs[j].tag = "KeySignature"} IN S # {} /\ evs[Latest(S)].v[1] < 0

NamesRight ==
  Theme = "names" =>
    \A i \in 1..N : evs[i].tag \in NoteTags =>
      LET S == {j \in 1..(i - 1) : evs[j].tag = "NoteOn" /\ evs[j].ch = evs[i].ch /\ evs[j].v[1] = evs[i].v[1]}
          flats == IF evs[i].tag = "NoteOff" /\ S # {} THEN FlatsBefore(Latest(S)) ELSE FlatsBefore(i)
      IN Reading.evs[i].name = NoteName(evs[i].v[1], flats, FALSE)

(* ---- complaints ------------------------------------------------------------------------ *)

\* Bank selects: a pair is an MSB directly followed by an LSB; whatever is in no pair is complained about once, a pair across channels twice.
Pairs == {i \in 1..(N - 1) : IsMsb(evs[i]) /\ IsLsb(evs[i + 1])}
Lonely == {i \in 1..N : (IsMsb(evs[i]) /\ i \notin Pairs /\ i < N) \/ (IsLsb(evs[i]) /\ (i - 1) \notin Pairs)}
Split == {i \in Pairs : evs[i].ch # evs[i + 1].ch}

ComplaintsRight == Theme = "banks" => Len(TrackComplaints(Append(evs, Meta(47, <<>>, <<>>)), 1, 1)) = Cardinality(Lonely) + 2 * Cardinality(Split) + (IF N > 0 /\ IsMsb(evs[N]) THEN 1 ELSE 0)
=============================================================================
