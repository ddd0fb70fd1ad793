-------------------------------- MODULE MCVlq --------------------------------
(***************************************************************************)
(* Variable length quantities, exhaustively over short byte strings and    *)
(* over the numbers around every boundary: the reader inverts the writer,  *)
(* the writer's encoding is the shortest, and everything the reader        *)
(* accepts is a padded form of it.                                         *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS Limbs,        \* the bytes that strings are made of
          MaxLen        \* length of the strings

VARIABLES b             \* a byte string

Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Limbs : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Value == VlqAt(b, 1, Len(b))

\* What is accepted is a number that fits, written in at most four bytes, of which all but the last have the top bit set.
Accepted ==
  Value.ok =>
    /\ Value.v \in 0..MaxVlq
    /\ Value.p \in 2..5
    /\ \A i \in 1..(Value.p - 2) : b[i] >= 128
    /\ b[Value.p - 1] < 128

\* It is the shortest encoding or a padded one, and the shortest one is not longer.
Padded ==
  Value.ok =>
    /\ SubSeq(b, 1, Value.p - 1) = VlqPadded(Value.v, Value.p - 1)
    /\ Len(Vlq(Value.v)) <= Value.p - 1

\* The reader inverts the writer.
ReadsBack == Value.ok => VlqAt(Vlq(Value.v), 1, Len(Vlq(Value.v))) = [ok |-> TRUE, v |-> Value.v, p |-> Len(Vlq(Value.v)) + 1]

\* What is refused is unfinished, or too long.
Refused == ~Value.ok => \A i \in 1..Min2(4, Len(b)) : b[i] >= 128

\* A quantity depends on its own bytes only.
OwnBytes == Value.ok => \A n \in (Value.p - 1)..Len(b) : VlqAt(b, 1, n) = Value

Near == UNION {{x - 2, x - 1, x, x + 1} \cap 0..MaxVlq : x \in {2, 128, 256, 16384, 32768, 2097152, 4194304, 134217728, 268435456}}
Boundaries ==
  \A n \in Near :
    /\ VlqAt(Vlq(n), 1, Len(Vlq(n))).v = n
    /\ \A k \in 1..4 : LET w == VlqPadded(n, k) IN VlqAt(w, 1, Len(w)) = [ok |-> TRUE, v |-> n, p |-> Len(w) + 1]
ASSUME Boundaries
=============================================================================
