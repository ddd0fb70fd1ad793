-------------------------------- MODULE MCKeys --------------------------------
(***************************************************************************)
(* Transposition as an algebra: a sequence of transpositions of a key and  *)
(* of a note.  Every key can be transposed by every interval; transposing  *)
(* twice is transposing by the sum; an octave changes nothing.             *)
(***************************************************************************)
EXTENDS Music

CONSTANTS Span, Depth

VARIABLES key, first, sum, steps, note, moved

vars == <<key, first, sum, steps, note, moved>>

Init ==
  /\ key \in (-7..7) \X {Major, Minor} /\ first = key /\ sum = 0 /\ steps = 0
  /\ note \in {0, 1, 60, 126, 127} /\ moved = note

Shift ==
  /\ steps < Depth
  /\ \E n \in -Span..Span :
       /\ \E k \in TransposedKeys(key[1], key[2], n) : key' = k
       /\ sum' = sum + n
       /\ moved' = Clamp7(moved + n)
  /\ steps' = steps + 1
  /\ UNCHANGED <<first, note>>

Next == Shift
Spec == Init /\ [][Next]_vars

\* There always is a key to transpose to, and at most two (six sharps or six flats).
Total == \A n \in -Span..Span : Cardinality(TransposedKeys(key[1], key[2], n)) \in {1, 2}

Composes == steps > 0 => key \in TransposedKeys(first[1], first[2], sum)
Octave == TransposedKeys(key[1], key[2], 0) = TransposedKeys(key[1], key[2], 12)
Mode == key[2] = first[2]

\* A note that was never pushed against the end of the range moved by the sum.
NoteMoves == (steps = 1) => moved = Clamp7(note + sum)
InRange == moved \in 0..127

\* The name of the key signature says what Tonic computes.
NameClass == [x \in {"C", "D", "E", "F", "G", "A", "B"} |-> CASE x = "C" -> 0 [] x = "D" -> 2 [] x = "E" -> 4 [] x = "F" -> 5 [] x = "G" -> 7 [] x = "A" -> 9 [] x = "B" -> 11]
TonicName ==
  LET s == KeyName(key[1], key[2])
      acc == IF SubSeq(s, 2, 2) = " " THEN 0 ELSE IF SubSeq(s, 2, 13) = SHARP THEN 1 ELSE -1
  IN Mod12(NameClass[SubSeq(s, 1, 1)] + acc) = Tonic(key[1], key[2])
=============================================================================
