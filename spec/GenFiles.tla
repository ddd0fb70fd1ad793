------------------------------- MODULE GenFiles -------------------------------
(***************************************************************************)
(* The generator: a state machine that writes a Standard MIDI File event   *)
(* by event.  TLC's simulator runs it; every finished behaviour is printed *)
(* as one conformance case (a document and the operations to perform).     *)
(***************************************************************************)
EXTENDS Cases

CONSTANT Profile        \* what kind of documents (and Cases!Plan: which operations the cases ask for)

VARIABLES phase,        \* "header" | "track" | "event" | "done"
          head,         \* the header
          file,         \* finished chunks
          data,         \* the track being written
          left,         \* events still to write in this track
          tracks,       \* tracks written
          shelf,        \* finished files of a session
          st            \* what the writer must remember: run(ning status), open (SysEx message), sum (of deltas)

gvars == <<phase, head, file, data, left, tracks, shelf, st>>

\* Documents that the text form (T), the JSON form (J) or both can represent.
Sheet == Profile \in {"sheet", "sheetT", "sheetJ", "sheets", "sheetB", "large", "wide"}
Musical == Profile \in {"notes", "clock", "click", "large", "wide"}

\* Weighted event kinds.
Kinds ==
  CASE Profile = "mix" ->
         <<"on", "on", "off", "off", "on0", "poly", "ctl", "msb", "lsb", "prog", "chan", "bend", "seqno", "text", "text", "prefix", "port",
           "tempo", "smpte", "tsig", "ksig", "seqspec", "sx", "sxopen", "sxesc", "ctl", "eot">>
    [] Profile = "notes" -> <<"on", "on", "on", "off", "off", "on0", "on0", "off", "on", "tempo", "ksig", "ctl", "prog", "text">>
    [] Profile = "names" -> <<"on", "on", "off", "off", "on0", "ksig", "on", "off", "ctl", "ksig">>
    [] Profile = "bank" -> <<"msb", "lsb", "prog", "msb", "lsb", "prog", "ctl", "on", "text", "prog">>
    [] Profile = "sysex" -> <<"sx", "sxopen", "sxesc", "sxopen", "on", "off", "text", "seqspec", "sx", "ctl">>
    [] Profile = "meta" -> <<"seqno", "text", "text", "text", "prefix", "port", "tempo", "smpte", "tsig", "ksig", "seqspec", "on", "smpte", "tsig">>
    [] Profile = "bulk" -> <<"text", "seqspec", "sx", "sxopen", "sxesc", "on", "text", "ctl">>
    [] Profile = "ticks" -> <<"on", "off", "text", "tempo", "ctl", "bend", "prog", "eot">>
    [] Profile = "run" -> <<"on", "on", "on", "off", "off", "on0", "ctl", "ctl", "prog", "prog", "bend", "chan", "poly", "text", "sx", "sxesc">>
    [] Profile = "tiny" -> <<"on", "off", "ctl", "prog", "text", "tempo", "ksig", "sx", "sxopen", "sxesc", "tsig", "smpte", "bend", "seqspec">>
    [] Profile = "click" -> IF tracks = 0 THEN <<"tempo", "tempo", "tempo", "text", "tsig">> ELSE <<"on", "off", "tsig", "text", "tsig", "tsig", "ctl", "tsig">>
    [] Profile = "clock" -> <<"on", "on", "off", "on0", "tempo", "tempo", "on", "off", "tempo", "eot">>
    [] Profile = "sheets" -> \* SysEx packets above all
         <<"sx", "sxopen", "sxopen", "sxesc", "sxesc", "text", "on", "seqspec", "sxopen", "text">>
    [] Profile \in {"large", "wide"} -> \* (representable in every form)
         <<"on", "on", "on", "off", "off", "off", "on0", "on", "off", "ctl", "msb", "lsb", "prog", "chan", "bend", "text", "tempo", "ksig", "sx", "sxopen", "sxesc", "tsig">>
    [] Sheet -> \* what a notation program would write; everything representable as text and JSON
         <<"on", "on", "off", "off", "on0", "poly", "ctl", "msb", "lsb", "prog", "chan", "bend", "seqno", "text", "text", "prefix", "port",
           "tempo", "smpte", "tsig", "ksig", "seqspec", "sx", "sx", "sxopen", "sxesc">>

Opts ==
  [notes |-> IF Profile \in {"notes", "names", "clock"} THEN <<36, 49, 60, 61, 61, 63, 66, 70>> ELSE IF Profile = "run" THEN <<60, 64>> ELSE <<>>,
   chans |-> IF Profile \in {"notes", "names", "bank", "clock"} THEN <<0, 0, 1, 9>> ELSE IF Profile = "run" THEN <<0, 0, 0, 5>> ELSE <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 0>>,
   text |-> IF Profile = "sheetT" THEN "line" ELSE IF Profile = "sheetJ" THEN "utf8" ELSE IF Sheet THEN "plain" ELSE "any",
   bulk |-> Profile \in {"bulk", "sheetB"},
   known |-> Sheet]

MinEvents == IF Profile = "large" THEN 120 ELSE 1
MinTracks == IF Profile = "wide" THEN 11 ELSE 1
MaxEvents == IF Profile = "large" THEN 150 ELSE IF Profile = "wide" THEN 8 ELSE IF Profile \in {"bulk", "sheetB", "tiny"} THEN 5 ELSE IF Profile \in {"run", "notes", "names", "bank", "clock", "click"} THEN 24 ELSE 14
MaxTracks == IF Profile = "wide" THEN 25 ELSE IF Profile = "large" THEN 2 ELSE IF Profile \in {"bulk", "sheetB"} THEN 2 ELSE IF Profile = "tiny" THEN 3 ELSE 4

Divisions == <<96, 480, 1, 120, 32767, 960, 1000, 59368, 59144, 58193, 57936>>
\* E8 08..: 59392+x 24 fps, 59136+x 25, 58112+x 29, 57856+x 30

GInit ==
  /\ phase = "header"
  /\ head = NoHeader /\ file = <<>> /\ data = <<>> /\ left = 0 /\ tracks = 0 /\ shelf = <<>>
  /\ st = [run |-> 0, open |-> FALSE, len |-> 1, pos |-> 0]

ChooseHeader ==
  /\ phase = "header"
  /\ \E R \in {Draw(phase)} :
       LET fmt == IF Profile \in {"wide", "click"} THEN 1 ELSE IF Musical THEN (IF Chance(R[3], 40) THEN 0 ELSE 1) ELSE (R[3] % 3)
           n == IF Chance(R[1], 6) THEN 0 ELSE IF Profile = "wide" THEN MinTracks + (R[2] % MaxTracks) ELSE IF Musical THEN (IF fmt = 0 THEN 1 ELSE 2 + (R[2] % (IF Profile = "large" THEN 2 ELSE 3))) ELSE 1 + (R[2] % MaxTracks)
           div == IF Profile = "click" THEN Of(R[4], <<96, 480, 120, 960, 24, 192, 240>>) ELSE IF Musical /\ Chance(R[7], 95) THEN Of(R[4], <<96, 480, 1, 120, 960, 7, 1000, 32767>>)
                  ELSE IF Chance(R[4], 75) THEN Of(R[5], <<96, 480, 1, 120, 32767, 960, 0, 255, 256>>)
                  ELSE Of(R[5], <<59392, 59136, 58112, 57856>>) + (R[6] % 256)
       IN head' = Header(fmt, n, div)
  /\ phase' = "track"
  /\ UNCHANGED <<file, data, left, tracks, shelf, st>>

OpenTrack ==
  /\ phase = "track" /\ tracks < head.tracks
  /\ \E R \in {Draw(phase)} :
       /\ left' = IF Chance(R[1], 5) THEN 0 ELSE MinEvents + (R[2] % MaxEvents)
       /\ file' = IF Chance(R[3], 8) /\ ~Sheet THEN file \o Alien(R[4], R[5]) ELSE file
  /\ phase' = "event" /\ data' = <<>>
  /\ st' = [run |-> 0, open |-> FALSE, len |-> 4 * head.ppqn, pos |-> 0]
  /\ UNCHANGED <<head, tracks, shelf>>

\* The kinds that are legal next, given whether a SysEx message is open.
Legal(k, open) ==
  IF k = "tempo" /\ Musical /\ tracks > 0 THEN "on"
  ELSE IF open THEN (IF k \in {"sx", "sxopen", "sxesc"} THEN "sxcont" ELSE IF k \in {"text", "eot"} THEN "sxend" ELSE k) ELSE k

\* Time signatures on bar lines, tempo changes near and on them. (st.len: ticks per bar, st.pos: ticks into the bar)
Barred(ev, R, Q) ==
  LET rest == IF st.pos = 0 THEN 0 ELSE st.len - st.pos
      some == Of(Q[1], <<0, 0, 1, 1, 1, 2, 3, 7>>) * st.len
  IN IF ev.tag = "TimeSignature"
     THEN [ev EXCEPT !.v = <<Of(R[4], <<1, 2, 3, 4, 4, 5, 6, 7, 9, 12>>), Of(R[5], <<1, 2, 4, 4, 4, 8, 8, 16, 32>>), 24, 8>>,
                     !.delta = IF data = <<>> THEN 0 ELSE IF Chance(Q[3], 3) THEN rest + 1 ELSE rest + some]
     ELSE [ev EXCEPT !.delta = CASE Chance(Q[3], 30) -> rest + some
                                 [] Chance(Q[3], 60) -> DrawDelta(Q[1], Q[2], FALSE)
                                 [] OTHER -> Of(Q[2], <<head.ppqn, head.ppqn \div 2, 2 * head.ppqn, 3 * head.ppqn, rest + some + 1, head.ppqn \div 3>>)]

WriteEvent ==
  /\ phase = "event" /\ left > 0
  /\ \E R \in {Draw(phase)} : \E Q \in {Draw(phase)} :
       LET k == IF Profile = "click" /\ tracks = 1 /\ data = <<>> THEN "tsig" ELSE Legal(Of(R[1], Kinds), st.open)
           ev0 == DrawEvent(k, R, Opts)
           ev == IF Profile = "click" THEN Barred(ev0, R, Q) ELSE [ev0 EXCEPT !.delta = DrawDelta(Q[1], Q[2], Profile = "ticks" /\ Chance(Q[3], 60))]
           pd == IF Chance(Q[4], 8) THEN 1 + (Q[5] % 4) ELSE 1
           pl == IF Chance(Q[6], 8) THEN 1 + (Q[7] % 4) ELSE 1
       IN IF ~Unambiguous(ev) \/ (k = "eot" /\ Chance(Q[8], 90))
          THEN UNCHANGED <<data, left, st>>
          ELSE /\ data' = data \o EncodeWith(ev, st.run, Chance(Q[9], 70), pd, pl)
               /\ left' = left - 1
               /\ st' = [run |-> IF ev.tag \in VoiceTags THEN ev.st ELSE 0,
                         open |-> IF ev.tag = "SysExMessage" THEN ~(SysExData(ev)[Len(SysExData(ev))] = 247)
                                  ELSE IF ev.tag = "SysExContinuation" THEN st.open /\ ~ev.f ELSE st.open,
                         len |-> IF Profile = "click" /\ ev.tag = "TimeSignature" THEN (4 * head.ppqn * ev.v[1]) \div ev.v[2] ELSE st.len,
                         pos |-> IF Profile # "click" \/ ev.tag = "TimeSignature" THEN 0 ELSE (st.pos + ev.delta) % st.len]
  /\ UNCHANGED <<phase, head, file, tracks, shelf>>

CloseTrack ==
  /\ phase = "event" /\ left = 0
  /\ \E R \in {Draw(phase)} :
       LET close == IF st.open /\ Sheet THEN <<0, 247, 1, 247>> ELSE <<>>
           eot == IF Chance(R[1], 4) /\ ~Sheet THEN <<>> ELSE Vlq(DrawDelta(R[2], R[3], FALSE)) \o <<255, 47, 0>>
       IN file' = file \o Chunk(TagMTrk, data \o close \o eot)
  /\ tracks' = tracks + 1 /\ data' = <<>> /\ phase' = "track"
  /\ UNCHANGED <<head, left, shelf, st>>

Finished(R) == HeaderBytes(head) \o file \o (IF Chance(R[15], 6) /\ ~Sheet THEN Alien(R[13], R[14]) ELSE <<>>)

\* The first file of a session goes on the shelf, and the writer starts again.
Shelve ==
  /\ phase = "track" /\ tracks = head.tracks
  /\ Plan \in Sessions /\ Len(shelf) < 2
  /\ \E R \in {Draw(phase)} : shelf' = Append(shelf, Finished(R))
  /\ phase' = "header" /\ head' = NoHeader /\ file' = <<>> /\ tracks' = 0
  /\ UNCHANGED <<data, left, st>>

Emit ==
  /\ phase = "track" /\ tracks = head.tracks
  /\ Plan \in Sessions => Len(shelf) = 2
  /\ \E R \in {Draw(phase)} : \E Q2 \in {Draw(phase)} :
       Show(IF Plan \in Sessions THEN SessionOf(Append(shelf, Finished(R)), Q2) ELSE CaseOf(Finished(R), R, Q2))
  /\ phase' = "done"
  /\ UNCHANGED <<head, file, data, left, tracks, shelf, st>>

GNext == ChooseHeader \/ OpenTrack \/ WriteEvent \/ CloseTrack \/ Shelve \/ Emit

GSpec == GInit /\ [][GNext]_gvars
=============================================================================
