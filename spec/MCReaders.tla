------------------------------ MODULE MCReaders ------------------------------
(***************************************************************************)
(* Several readers at work at the same time, each with a track and a state *)
(* of its own (running status, SysEx, note names, banks). However their    *)
(* steps interleave, each arrives at what it would have arrived at alone.  *)
(* With Shared the state that outlives an event is one for all, which is   *)
(* the design that must not be chosen: TLC finds two readers that disturb  *)
(* each other (MANIFEST checks run the other one).                         *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Readers,      \* a set
          Depth,        \* events in a track
          Shared        \* TRUE: one state for all

VARIABLES track,        \* reader -> the bytes of its track
          st,           \* reader -> its state (position apart, all the same if Shared)
          out           \* reader -> the events read

vars == <<track, st, out>>

\* Events whose reading depends on what came before them.
Few == { <<144, 61, 64>>, <<61, 0>>, <<128, 61, 0>>, <<176, 0, 1>>, <<192, 5>>, <<255, 89, 2, 253, 0>>, <<240, 2, 67, 1>>, <<247, 2, 3, 247>> }

RECURSIVE Tracks(_)
Tracks(n) == IF n = 0 THEN {<<>>} ELSE {t \o <<0>> \o e : t \in Tracks(n - 1), e \in Few}

Init == track \in [Readers -> {t \in Tracks(Depth) : ReadEvents(t, Len(t), TrackInit(1), FALSE, <<>>).ok}] /\ st = [r \in Readers |-> TrackInit(1)] /\ out = [r \in Readers |-> <<>>]

Step(r) ==
  /\ st[r].p <= Len(track[r])
  /\ LET x == TrackStep(track[r], Len(track[r]), st[r], FALSE) IN
     /\ x.ok
     /\ out' = [out EXCEPT ![r] = Append(@, x.ev)]
     /\ st' = IF Shared THEN [q \in Readers |-> [x.st EXCEPT !.p = IF q = r THEN @ ELSE st[q].p, !.tick = IF q = r THEN @ ELSE st[q].tick]] ELSE [st EXCEPT ![r] = x.st]
     /\ UNCHANGED track

Next == \E r \in Readers : Step(r)
Spec == Init /\ [][Next]_vars

Alone(r) == ReadEvents(track[r], Len(track[r]), TrackInit(1), FALSE, <<>>).evs

\* What a reader has read so far is what it would have read by itself,
Undisturbed == \A r \in Readers : out[r] = SubSeq(Alone(r), 1, Len(out[r]))

\* and none of them gets stuck.
NeverStuck == \A r \in Readers : st[r].p <= Len(track[r]) => ENABLED Step(r)
=============================================================================
