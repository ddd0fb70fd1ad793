------------------------------ MODULE MCCommand ------------------------------
(***************************************************************************)
(* The command as a state machine, one system call at a time, with every   *)
(* fault.  The order of the calls is what makes the promises of Command    *)
(* true: reading and working come before the place is opened.              *)
(***************************************************************************)
EXTENDS Command, Sequences

CONSTANTS Pieces        \* the result is written in this many pieces

VARIABLES place, sound, \* where the result goes; the input is a document the command can work on
          pc,           \* "read" | "work" | "open" | "write" | "close" | "done"
          input, out,   \* contents of the files: "absent" | "document" | "old" | "nothing" | "part" | "result"
          put,          \* pieces written
          status        \* exit status, -1 while running

vars == <<place, sound, pc, input, out, put, status>>

\* Writing over the input changes both.
Store(x) == out' = x /\ input' = IF place = "self" THEN x ELSE input

Init ==
  /\ place \in Places /\ sound \in BOOLEAN
  /\ input = (IF place \in {"missing", "indir"} THEN "absent" ELSE "document")
  /\ out = (CASE place = "" -> "old" [] place = "self" -> "document" [] place \in {"missing", "indir"} -> "old" [] OTHER -> "absent")
  /\ pc = "read" /\ put = 0 /\ status = -1

Fail == pc' = "done" /\ status' = 1 /\ UNCHANGED <<place, sound, input, out, put>>

Read ==
  /\ pc = "read"
  /\ IF input = "absent" THEN Fail ELSE pc' = "work" /\ UNCHANGED <<place, sound, input, out, put, status>>

Work ==
  /\ pc = "work"
  /\ IF ~sound THEN Fail ELSE pc' = "open" /\ UNCHANGED <<place, sound, input, out, put, status>>

Open ==
  /\ pc = "open"
  /\ IF place \in {"nodir", "dir"} THEN Fail
     ELSE pc' = "write" /\ Store("nothing") /\ UNCHANGED <<place, sound, put, status>>

Write ==
  /\ pc = "write"
  /\ IF place = "full" THEN Fail
     ELSE /\ put' = put + 1
          /\ Store(IF put + 1 = Pieces THEN "result" ELSE "part")
          /\ pc' = IF put + 1 = Pieces THEN "close" ELSE "write"
          /\ UNCHANGED <<place, sound, status>>

Close == pc = "close" /\ pc' = "done" /\ status' = 0 /\ UNCHANGED <<place, sound, input, out, put>>

Next == Read \/ Work \/ Open \/ Write \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == pc = "done" => (status # 0 <=> MustFail(place, sound))
Complete == status = 0 => out = "result"
Kept == (pc = "done" /\ status # 0 /\ place \notin {"full"}) => out = (CASE place = "" -> "old" [] place = "self" -> "document" [] place \in {"missing", "indir"} -> "old" [] OTHER -> "absent")
InputKept == (input # "document") => place \in {"self", "missing", "indir"}
SelfWhole == (place = "self" /\ pc = "done") => input \in {"document", "result"}
Ends == <>(pc = "done")
=============================================================================
