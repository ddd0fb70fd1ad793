------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation.  The driver records what the program did with every   *)
(* document and operation of a case; this specification replays the        *)
(* recording.  Reading a file is replayed action by action (open the file, *)
(* skip a foreign chunk, open a track, read a meta / SysEx / voice event,  *)
(* close the track, accept or refuse the file); an operation on a whole    *)
(* document is one action whose outcome must be the one the model gives.   *)
(*                                                                         *)
(* Every case ends in one of two states: accepted (DONE) or refused with   *)
(* the reason (BAD).  Prop selects the observations the verdict is about.  *)
(***************************************************************************)
EXTENDS Templates, Music, Command, Json, IOUtils

CONSTANT Prop

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c,      \* the case
          k,      \* the operation of the case being replayed
          ph,     \* "op" | "chunk" | "event" | "accepted" | "refused"
          p,      \* next byte, between chunks
          hi,     \* last byte of the open track
          t,      \* tracks read
          i,      \* events read of the open track
          st,     \* what the reader of the open track remembers (Smf!TrackInit)
          why     \* reason for refusing the recording

vars == <<c, k, ph, p, hi, t, i, st, why>>

Case == Obs[c]
TheOp == Case.ops[k]
Res == Case.res[k]
Doc(op) == Case.docs[op.d]

(* ---- which observations each property is about ----------------------------- *)

EventFields ==
  CASE Prop = "C14" -> {"tag", "name", "alias"}
    [] Prop = "C17" -> {"tag", "ch", "v", "bank"}
    [] OTHER -> Fidelity

SameNames(x, y) == x.name = y.name /\ x.alias = y.alias /\ XName(x) = y.xname /\ XRegion(x) = y.xreg

EventOk(x, y) ==
  /\ DiffFields(x, y, EventFields) = {}
  /\ Prop \in {"C01", "C18", "C26"} => x.raw = y.raw
  /\ Prop \in {"C14", "C18", "C26"} => SameNames(x, y)
  /\ Prop \in {"C18", "C26"} => x.bank = y.bank

(* ---- replaying the reader --------------------------------------------------- *)

Init ==
  /\ c \in 1..Len(Obs)
  /\ k = 1 /\ ph = "op" /\ p = 0 /\ hi = 0 /\ t = 0 /\ i = 0 /\ st = TrackInit(0) /\ why = ""

Loads == {"load", "load1"}
Reading == ph \in {"op", "chunk", "event"} /\ k <= Len(Case.ops) /\ TheOp.op \in Loads /\ Prop # "C12"

Refuse(reason) ==
  /\ ph' = "refused" /\ why' = reason
  /\ PrintT(<<"BAD", Case.id, k, reason>>)
  /\ UNCHANGED <<c, k, p, hi, t, i, st>>

NextOp ==
  /\ k' = k + 1 /\ ph' = "op" /\ p' = 0 /\ hi' = 0 /\ t' = 0 /\ i' = 0 /\ st' = TrackInit(0)
  /\ UNCHANGED <<c, why>>

\* Nothing may panic or hang, whatever the property.
Faulted ==
  /\ ph = "op" /\ k <= Len(Case.res) /\ Res.fault # ""
  /\ Refuse(Res.fault)

\* ... and nothing may be left running when an operation is over.
Idle == IF "left" \in DOMAIN Res /\ Res.left > 0 THEN "left something running" ELSE ""

Healthy == k <= Len(Case.ops) /\ Res.fault = ""

\* The reader refused the file: right exactly when the file is not a Standard MIDI File.
ReaderRefuses ==
  /\ Reading /\ ph = "op" /\ Healthy /\ ~Res.ok
  /\ IF ReadFile(Doc(TheOp), FALSE).ok THEN Refuse("refused a well-formed file") ELSE NextOp

OpenFile ==
  /\ Reading /\ ph = "op" /\ Healthy /\ Res.ok
  /\ LET h == HeaderAt(Doc(TheOp)) IN
     IF ~h.ok THEN Refuse("accepted a file without a proper header")
     ELSE IF h.h # Res.h THEN Refuse("header")
     ELSE /\ ph' = "chunk" /\ p' = 15 /\ t' = 0 /\ i' = 0
          /\ UNCHANGED <<c, k, hi, st, why>>

SkipForeignChunk ==
  /\ Reading /\ ph = "chunk" /\ p <= Len(Doc(TheOp))
  /\ LET x == ChunkAt(Doc(TheOp), p) IN
     /\ x.ok /\ x.tag # TagMTrk
     /\ p' = x.hi + 1
  /\ UNCHANGED <<c, k, ph, hi, t, i, st, why>>

OpenTrack ==
  /\ Reading /\ ph = "chunk" /\ p <= Len(Doc(TheOp))
  /\ LET x == ChunkAt(Doc(TheOp), p) IN
     /\ x.ok /\ x.tag = TagMTrk
     /\ IF t + 1 > Len(Res.tracks) THEN Refuse("track missing")
        ELSE LET y == Res.tracks[t + 1] IN
             IF y.n # t \/ y.length # x.hi - x.lo + 1 \/ (Prop = "C01" /\ y.raw # SubSeq(Doc(TheOp), x.lo - 8, x.hi)) THEN Refuse("track header")
             ELSE /\ ph' = "event" /\ hi' = x.hi /\ st' = TrackInit(x.lo) /\ i' = 0 /\ t' = t + 1
                  /\ UNCHANGED <<c, k, p, why>>

TruncatedChunk ==
  /\ Reading /\ ph = "chunk" /\ p <= Len(Doc(TheOp)) /\ ~ChunkAt(Doc(TheOp), p).ok
  /\ Refuse("accepted a truncated chunk")

\* One event of the open track; S restricts the action to a class of events.
ReadOne(S) ==
  /\ Reading /\ ph = "event" /\ st.p <= hi
  /\ LET r == TrackStep(Doc(TheOp), hi, st, TheOp.c4)
         evs == Res.tracks[t].evs
     IN /\ r.ok /\ r.ev.tag \in S
        /\ IF i + 1 > Len(evs) THEN Refuse("event missing: " \o r.ev.tag)
           ELSE IF ~EventOk(r.ev, evs[i + 1]) THEN Refuse("event differs: " \o r.ev.tag)
           ELSE /\ st' = r.st /\ i' = i + 1
                /\ UNCHANGED <<c, k, ph, p, hi, t, why>>

ReadMetaEvent == ReadOne(MetaTags)
ReadSysExPacket == ReadOne(SysExTags)
ReadVoiceMessage == ReadOne(VoiceTags)

MalformedEvent ==
  /\ Reading /\ ph = "event" /\ st.p <= hi
  /\ ~TrackStep(Doc(TheOp), hi, st, TheOp.c4).ok
  /\ Refuse("accepted a malformed event")

CloseTrack ==
  /\ Reading /\ ph = "event" /\ st.p > hi
  /\ IF i # Len(Res.tracks[t].evs) THEN Refuse("invented an event")
     ELSE /\ ph' = "chunk" /\ p' = hi + 1
          /\ UNCHANGED <<c, k, hi, t, i, st, why>>

AcceptFile ==
  /\ Reading /\ ph = "chunk" /\ p > Len(Doc(TheOp))
  /\ IF t # HeaderAt(Doc(TheOp)).h.tracks THEN Refuse("accepted a file with missing or extra tracks")
     ELSE IF Len(Res.tracks) # t THEN Refuse("invented a track")
     ELSE NextOp

Reader == OpenFile \/ ReaderRefuses \/ SkipForeignChunk \/ OpenTrack \/ TruncatedChunk
          \/ ReadMetaEvent \/ ReadSysExPacket \/ ReadVoiceMessage \/ MalformedEvent \/ CloseTrack \/ AcceptFile

(* ---- operations on whole documents ------------------------------------------ *)

\* A command that fails leaves the file it was to write alone.
JudgeFailure == IF "kept" \in DOMAIN Res /\ ~Res.kept THEN "failed, but the output file was changed" ELSE ""

\* An operation on a file that cannot be read must fail; otherwise the verdict is v(document), "" meaning right.
OnDoc(v(_)) ==
  LET d == ReadFile(Doc(TheOp), TheOp.c4) IN
  IF ~d.ok THEN (IF Res.ok THEN "processed a malformed file" ELSE JudgeFailure)
  ELSE v(d)

\* ... and an operation that has no reason to fail must succeed.
Success(v(_)) == OnDoc(LAMBDA d : IF ~Res.ok THEN "failed on a well-formed file" ELSE v(d))

\* b is an encoding of the tracks ts (sequences of events) under header h.
Denotes(b, h, ts) ==
  LET r == ReadFile(b, FALSE) IN
  IF ~r.ok THEN "the output is not a Standard MIDI File"
  ELSE IF r.h # h THEN "the output has another header"
  ELSE IF Len(r.tracks) # Len(ts) THEN "the output has other tracks"
  ELSE LET bad == {x \in 1..Len(ts) : Meanings(r.tracks[x].evs) # Meanings(ts[x])} IN
       IF bad = {} THEN "" ELSE "the output has other events in track " \o ToString((CHOOSE x \in bad : \A y \in bad : x <= y) - 1)

EventsOf(d) == [x \in 1..Len(d.tracks) |-> d.tracks[x].evs]

\* The canonical shape of a file the program writes: the header, the tracks, nothing else, and shortest quantities.
RECURSIVE CanonicalEvents(_, _, _)
CanonicalEvents(b, e, s) ==
  IF s.p > e THEN TRUE
  ELSE LET r == TrackStep(b, e, s, FALSE)
           q == VlqAt(b, s.p, e)
           l == q.p + (IF r.ev.tag \in MetaTags THEN 2 ELSE 1)   \* where the length of a meta event or packet is
       IN /\ r.ok
          /\ ShortestVlq(b, s.p, e)
          /\ r.ev.tag \in MetaTags \cup SysExTags => ShortestVlq(b, l, e)
          /\ CanonicalEvents(b, e, r.st)

RECURSIVE CanonicalChunks(_, _)
CanonicalChunks(b, q) ==
  IF q > Len(b) THEN TRUE
  ELSE LET x == ChunkAt(b, q) IN x.ok /\ x.tag = TagMTrk /\ CanonicalEvents(b, x.hi, TrackInit(x.lo)) /\ CanonicalChunks(b, x.hi + 1)

Canonical(b) == HeaderAt(b).ok /\ ReadFile(b, FALSE).ok /\ CanonicalChunks(b, 15)

JudgeEncoding(d) ==
  IF Prop = "C03" THEN (IF Canonical(Res.out) THEN "" ELSE "the output is not a canonical Standard MIDI File")
  ELSE Denotes(Res.out, d.h, EventsOf(d))

JudgeTransposed(d) ==
  LET r == ReadFile(Res.out, FALSE) IN
  IF ~r.ok THEN "the output is not a Standard MIDI File"
  ELSE IF Prop = "C03" THEN (IF Canonical(Res.out) THEN "" ELSE "the output is not a canonical Standard MIDI File")
  ELSE IF r.h # d.h THEN "the output has another header"
  ELSE IF Len(r.tracks) # Len(d.tracks) THEN "the output has other tracks"
  ELSE IF \E x \in 1..Len(d.tracks) : Len(r.tracks[x].evs) # Len(d.tracks[x].evs) THEN "the output has other events"
  ELSE IF \E x \in 1..Len(d.tracks) : \E y \in 1..Len(d.tracks[x].evs) : ~IsTransposed(d.tracks[x].evs[y], r.tracks[x].evs[y], TheOp.n)
       THEN "an event is not transposed as it should" ELSE ""

NoteFields == CASE Prop = "C08" -> {"ch", "note", "vel", "name"} [] OTHER -> {"ch", "note", "vel", "name", "start", "end", "dur"}

JudgeNotes(d) ==
  LET m == Notes(d, TheOp.n, TheOp.c4) IN
  IF ~NotesSpecified(d) THEN ""
  ELSE IF m.ok # Res.ok THEN (IF m.ok THEN "failed to extract notes" ELSE "notes without metrical time")
  ELSE IF ~m.ok THEN JudgeFailure
  ELSE IF Len(m.notes) # Len(Res.notes) THEN "wrong number of notes"
  ELSE IF \E x \in 1..Len(m.notes) : DiffFields(m.notes[x], Res.notes[x], NoteFields) # {} THEN "a note differs" ELSE ""

JudgeClick(d) == IF ClickSpecified(d) /\ Res.l # ClickLines(d) THEN "the click track differs" ELSE ""

JudgeTsv(d) ==
  IF TheOp.op = "cli-tsv" THEN (IF Res.rows = TsvFile(d) THEN "" ELSE "the rows differ")
  ELSE IF Res.txt # TsvWords(d) THEN "the table differs"
  ELSE IF TsvOneLine(d) /\ Res.cells # TsvCells(d) THEN "a cell of the table is in the wrong place" ELSE ""

(* Single events: what the binary and the JSON form of an event say, read on their own. *)

\* On its own, an F7 packet is read as the continuation of a message.
Alone(ev) ==
  IF ev.tag = "SysExEscape" THEN
    LET pl == SysExPayload(247, ev.s, TRUE) IN [ev EXCEPT !.tag = pl.tag, !.s = pl.s, !.f = pl.f]
  ELSE ev

\* JSON holds Unicode text. Whether a continuation is the last packet of its message is decided by the packets around it.
InJson(ev) ==
  IF ev.tag \in TextTags THEN [ev EXCEPT !.s = Utf8Fix(ev.s)]
  ELSE IF ev.tag = "SysExContinuation" THEN [ev EXCEPT !.f = FALSE] ELSE ev

FormsOk(ev, f) ==
  IF f.err # "" THEN "a form of " \o ev.tag \o " cannot be read: " \o f.err
  ELSE IF f.bin # EventBytes(ev) THEN "the binary form of " \o ev.tag \o " differs"
  ELSE IF Meaning(f.frombin) # Meaning(Alone(ev)) THEN "what is read from the binary form of " \o ev.tag \o " differs"
  ELSE IF Meaning(f.fromjson) # Meaning(InJson(ev)) THEN "what is read from the JSON form of " \o ev.tag \o " differs"
  ELSE ""

JudgeForms(d) ==
  IF Len(Res.forms) # Len(d.tracks) \/ \E x \in 1..Len(d.tracks) : Len(Res.forms[x]) # Len(d.tracks[x].evs) THEN "an event is missing"
  ELSE LET bad == {<<x, y>> \in UNION {{x1} \X (1..Len(d.tracks[x1].evs)) : x1 \in 1..Len(d.tracks)} : FormsOk(d.tracks[x].evs[y], Res.forms[x][y]) # ""}
       IN IF bad = {} THEN "" ELSE LET xy == CHOOSE z \in bad : TRUE IN FormsOk(d.tracks[xy[1]].evs[xy[2]], Res.forms[xy[1]][xy[2]])

\* Bytes that are (or are not) a single event. (Whether bytes may follow the event is left open.)
SingleVerdict ==
  LET b == Doc(TheOp)
      r == TrackStep(b, Len(b), TrackInit(1), FALSE)
  IN IF ~r.ok THEN (IF Res.ok THEN "accepted bytes that are no event" ELSE "")
     ELSE IF r.st.p <= Len(b) THEN ""
     ELSE IF ~Res.ok THEN "refused a proper " \o r.ev.tag
     ELSE IF Meaning(Res.ev) # Meaning(Alone(r.ev)) THEN "what is read from the bytes of " \o r.ev.tag \o " differs" ELSE ""

Encodings == {"encode"}
Transpositions == {"transpose", "cli-transpose"}
RoundTrips == {"export+assemble", "text+assemble", "cli-roundtrip-text", "cli-roundtrip-json"}
Exports == {"export", "cli-export", "cli-export-out"}
Texts == {"text", "cli-text", "cli-text-out"}
Splits == {"cli-split", "cli-split-default"}
NoteOps == {"notes", "notes-json", "cli-notes", "cli-notes-json", "cli-notes-out", "cli-notes-json-out"}
TsvOps == {"cli-tsv", "cli-tsv-table", "cli-tsv-stdout"}
ClickOps == {"click", "cli-click", "cli-click-out"}
Layouts == {"layout", "cli-layout", "cli-layout-out", "cli-layout-split", "cli-layout-split-default"}
Assemblies == {"asmtext", "asmjson", "cli-asm", "cli-asm-default"}

JudgeWarnings(d) ==
  IF Prop \in {"C11", "C22"} /\ "warnings" \in DOMAIN Res /\ ~SameBag(Res.warnings, Complaints(d)) THEN "the warnings differ" ELSE ""

Both(a, b) == IF a # "" THEN a ELSE b

\* Where the program is to write: a place that cannot be written to (or an input that does not exist) must be reported.
Sink == IF "w" \in DOMAIN TheOp THEN TheOp.w ELSE ""

\* (A list of notes or a click track may be empty, and then there is nothing that could fail to be written.)
Something(d) ==
  CASE TheOp.op \in {"cli-notes", "cli-notes-out"} -> NotesSpecified(d) /\ Notes(d, 0, FALSE).notes # <<>>
    [] TheOp.op \in ClickOps -> ClickSpecified(d)
    [] OTHER -> TRUE

HopelessVerdict ==
  IF ~Res.ok THEN ""
  ELSE IF Sink = "full" /\ TheOp.op \in {"cli-notes", "cli-notes-out"} \cup ClickOps
  THEN OnDoc(LAMBDA d : IF Something(d) THEN "succeeded without writing its result" ELSE "")
  ELSE "succeeded without writing its result"

\* A listing with the user's own templates. Templates that cannot be read are an error, whatever the document.
JudgeLayout ==
  LET m == Case.meta[k] IN
  IF ~m.ok THEN (IF Res.ok THEN "accepted templates with an error" ELSE JudgeFailure)
  ELSE Success(LAMBDA d : IF TheOp.op \in {"cli-layout-split", "cli-layout-split-default"}
                          THEN (IF Range(Res.files) = PartsIn(m.layout, d) THEN "" ELSE "the files differ")
                          ELSE (IF Res.txt = DocIn(m.layout, d) THEN "" ELSE "the text differs"))

DocVerdict ==
  LET op == TheOp.op IN
  CASE Sink \in Hopeless -> HopelessVerdict
    [] op \in ClickOps -> Success(LAMBDA d : Both(JudgeClick(d), JudgeWarnings(d)))
    [] op \in Layouts -> JudgeLayout
    [] op = "forms" -> Success(JudgeForms)
    [] op = "single" -> SingleVerdict
    [] op \in Encodings -> Success(JudgeEncoding)
    [] op \in Transpositions -> Success(LAMBDA d : Both(JudgeTransposed(d), JudgeWarnings(d)))
    [] op \in RoundTrips -> Success(LAMBDA d : Both(JudgeEncoding(d), JudgeWarnings(d)))
    [] op \in Exports -> Success(LAMBDA d : Both(IF Range(Res.kv) = DocJson(d) /\ Len(Res.kv) = Cardinality(DocJson(d)) THEN "" ELSE "the JSON differs", JudgeWarnings(d)))
    [] op \in Texts -> Success(LAMBDA d : Both(IF Res.txt = DocText(d) THEN "" ELSE "the text differs", JudgeWarnings(d)))
    [] op \in Splits -> Success(LAMBDA d : Both(IF Range(Res.files) = DocParts(d) THEN "" ELSE "the files differ", JudgeWarnings(d)))
    [] op = "validate" -> Success(LAMBDA d : IF SameBag(Res.l, Complaints(d)) THEN "" ELSE "the complaints differ")
    [] op \in NoteOps -> OnDoc(LAMBDA d : Both(JudgeNotes(d), JudgeWarnings(d)))
    [] op = "cli-tsv" /\ "a" \in DOMAIN TheOp /\ TheOp.a \in Range(BadDelimiters) -> (IF Res.ok THEN "accepted a delimiter that cannot separate" ELSE JudgeFailure)
    [] op \in TsvOps -> Success(LAMBDA d : Both(JudgeTsv(d), JudgeWarnings(d)))

Operation ==
  /\ ph = "op" /\ Healthy /\ (Prop = "C12" \/ TheOp.op \notin Loads) /\ TheOp.op \notin Assemblies
  /\ LET v == IF Prop = "C12" THEN Idle ELSE DocVerdict IN IF v = "" THEN NextOp ELSE Refuse(v)

(* ---- assembling sources ------------------------------------------------------- *)

\* Cases that assemble carry the document the source was written for (meta), or the fact that it must be refused.
AssembleVerdict ==
  LET m == Case.meta[k] IN
  IF Sink \in Hopeless THEN HopelessVerdict
  ELSE IF ~m.ok THEN (IF Res.ok THEN "accepted a source with an error" ELSE JudgeFailure)
  ELSE IF ~Res.ok THEN "refused a proper source"
  ELSE IF Prop = "C03" THEN (IF Canonical(Res.out) THEN "" ELSE "the output is not a canonical Standard MIDI File")
  ELSE Denotes(Res.out, m.h, m.tracks)

Assemble ==
  /\ ph = "op" /\ Healthy /\ TheOp.op \in Assemblies
  /\ LET v == IF Prop = "C12" THEN Idle ELSE AssembleVerdict IN IF v = "" THEN NextOp ELSE Refuse(v)

Finish ==
  /\ ph = "op" /\ k > Len(Case.ops)
  /\ ph' = "accepted" /\ PrintT(<<"DONE", Case.id>>)
  /\ UNCHANGED <<c, k, p, hi, t, i, st, why>>

Next == Faulted \/ Reader \/ Operation \/ Assemble \/ Finish

Spec == Init /\ [][Next]_vars

\* Used to obtain a counterexample for a single case.
Conforms == ph # "refused"

TypeOK ==
  /\ ph \in {"op", "chunk", "event", "accepted", "refused"}
  /\ ph = "event" => st.p >= p /\ st.p <= hi + 1
  /\ ph \in {"chunk", "event"} => t <= 65535
=============================================================================
