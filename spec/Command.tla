------------------------------- MODULE Command -------------------------------
(***************************************************************************)
(* What a command does with files: it reads its input, works out the       *)
(* result, and only then opens, empties and writes the place where the     *)
(* result goes - which may be the input itself.                            *)
(*                                                                         *)
(* A place is: "" an existing file (or standard output), "new" one that    *)
(* does not exist, "self" the input, "nodir" in a directory that does not  *)
(* exist, "dir" a directory, "full" on a device without space; "missing"   *)
(* and "indir" mean that it is the input which does not exist or is a      *)
(* directory.                                                              *)
(***************************************************************************)
EXTENDS Integers

Places == {"", "new", "self", "nodir", "dir", "full", "missing", "indir"}

\* There is nothing to read or nowhere to write, whatever the input.
Hopeless == {"full", "nodir", "dir", "missing", "indir"}

\* A command succeeds exactly when it can.
MustFail(place, sound) == place \in Hopeless \/ ~sound

\* A command that fails leaves the place alone.
MustKeep(place, sound) == MustFail(place, sound)
=============================================================================
