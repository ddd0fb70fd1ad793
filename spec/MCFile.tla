-------------------------------- MODULE MCFile --------------------------------
(***************************************************************************)
(* A writer that encodes events in every permitted way (running status or  *)
(* not, quantities shortest or padded) and the reader of Smf.tla: whatever *)
(* was written is read back, byte for byte accounted for, and a track cut  *)
(* anywhere but between events is refused.                                 *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Depth,        \* events in the track
          Rich          \* TRUE: all exemplars, in all encodings; FALSE: fewer, for longer tracks

VARIABLES evs,          \* the events written
          enc,          \* their encoding
          cuts,         \* the lengths of enc at which an event was complete
          run, open     \* running status in force; a SysEx message is unfinished

vars == <<evs, enc, cuts, run, open>>

All ==
  { Voice(9, 0, <<60, 64>>), Voice(9, 0, <<60, 0>>), Voice(8, 0, <<60, 127>>), Voice(8, 15, <<0, 0>>), Voice(10, 3, <<127>>), Voice(11, 1, <<0, 5>>), Voice(11, 1, <<32, 6>>),
    Voice(12, 1, <<127>>), Voice(13, 9, <<0>>), Voice(14, 2, <<8192>>), Voice(14, 2, <<127>>),
    Meta(0, <<256>>, <<>>), Meta(1, <<>>, <<>>), Meta(3, <<>>, <<240, 247>>), Meta(9, <<>>, <<0, 128, 255>>), Meta(32, <<15>>, <<>>), Meta(33, <<0>>, <<>>), Meta(47, <<>>, <<>>),
    Meta(81, <<500000>>, <<>>), Meta(84, <<23, 59, 59, 29, 28, 99>>, <<>>), Meta(88, <<6, 8, 24, 8>>, <<>>), Meta(89, <<-3, 1>>, <<>>), Meta(127, <<0, 32, 41>>, <<1, 2>>), Meta(127, <<67>>, <<>>),
    SysEx("SysExMessage", <<67>>, <<1, 2>>, TRUE), SysEx("SysExMessage", <<0, 0, 59>>, <<>>, FALSE), SysEx("SysExMessage", <<126>>, <<9>>, FALSE),
    SysEx("SysExContinuation", <<>>, <<3>>, FALSE), SysEx("SysExContinuation", <<>>, <<>>, TRUE), SysEx("SysExContinuation", <<>>, <<>>, FALSE),
    SysEx("SysExEscape", <<>>, <<243, 1>>, FALSE), SysEx("SysExEscape", <<>>, <<247>>, FALSE), SysEx("SysExEscape", <<>>, <<>>, FALSE) }

Few ==
  { Voice(9, 0, <<60, 64>>), Voice(8, 0, <<60, 127>>), Voice(12, 0, <<5>>), Voice(14, 0, <<300>>), Meta(3, <<>>, <<144>>), Meta(89, <<-3, 1>>, <<>>),
    SysEx("SysExMessage", <<67>>, <<1>>, TRUE), SysEx("SysExMessage", <<67>>, <<1>>, FALSE), SysEx("SysExContinuation", <<>>, <<3>>, FALSE), SysEx("SysExContinuation", <<>>, <<>>, TRUE),
    SysEx("SysExEscape", <<>>, <<247>>, FALSE) }

Events_ == IF Rich THEN All ELSE Few
Deltas == IF Rich THEN {0, 200} ELSE {0}
Pads == IF Rich THEN {1, 3} ELSE {1}

\* A continuation packet only makes sense in an unfinished message, an escape only outside one, a new message only after the last.
Fits(ev) == ev.tag = "SysExContinuation" <=> (open /\ ev.tag \in SysExTags)

Init == evs = <<>> /\ enc = <<>> /\ cuts = {0} /\ run = 0 /\ open = FALSE

Write ==
  /\ Len(evs) < Depth
  /\ \E e \in Events_ : \E d \in Deltas : \E pd, pl \in Pads : \E elide \in BOOLEAN :
       /\ Fits(e)
       /\ elide => run = e.st
       /\ LET ev == [e EXCEPT !.delta = d]
              x == EncodeWith(ev, run, elide, pd, pl)
          IN /\ evs' = Append(evs, ev) /\ enc' = enc \o x /\ cuts' = cuts \cup {Len(enc) + Len(x)}
             /\ run' = IF ev.tag \in VoiceTags THEN ev.st ELSE 0
             /\ open' = IF ev.tag = "SysExMessage" THEN ~ev.f ELSE IF ev.tag = "SysExContinuation" THEN ~ev.f ELSE open

Next == Write
Spec == Init /\ [][Next]_vars

Read(n) == ReadEvents(enc, n, TrackInit(1), FALSE, <<>>)

\* The reader recovers the events, whatever the encoding.
ReadsBack == Read(Len(enc)).ok /\ Meanings(Read(Len(enc)).evs) = Meanings(evs)

RECURSIVE Concat(_, _)
Concat(xs, i) == IF i > Len(xs) THEN <<>> ELSE xs[i].raw \o Concat(xs, i + 1)

\* The bytes attributed to the events are the bytes of the track.
AllBytes == Concat(Read(Len(enc)).evs, 1) = enc

\* A track that ends in the middle of an event is refused; one that ends between events is a shorter track.
Cut == \A n \in 0..Len(enc) : Read(n).ok <=> n \in cuts

\* The canonical encoding means the same, and is the shortest with explicit status.
Canonical == LET r == ReadEvents(TrackData(evs, 1), Len(TrackData(evs, 1)), TrackInit(1), FALSE, <<>>) IN r.ok /\ Meanings(r.evs) = Meanings(evs)

File == FileBytes(Header(1, 2, 96), <<evs, <<>>>>)

\* Files: the chunks are found, and every truncation of a file is refused, as is every surplus.
WholeFile ==
  LET r == ReadFile(File, FALSE) IN
  /\ r.ok /\ r.h = Header(1, 2, 96) /\ Len(r.tracks) = 2 /\ Meanings(r.tracks[1].evs) = Meanings(evs) /\ r.tracks[2].evs = <<>>
  /\ \A n \in 0..(Len(File) - 1) : ~ReadFile(SubSeq(File, 1, n), FALSE).ok
  /\ ~ReadFile(File \o <<0>>, FALSE).ok
  /\ ~ReadFile(File \o Chunk(TagMTrk, <<>>), FALSE).ok
  /\ ReadFile(File \o Chunk(<<88, 70, 73, 72>>, <<1>>), FALSE) = r
=============================================================================
