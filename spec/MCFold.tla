------------------------------- MODULE MCFold -------------------------------
(***************************************************************************)
(* A content line put into transport: the writer puts character after      *)
(* character and may begin a continuation line wherever it likes, but must *)
(* before a line gets longer than the limit.  Checked with a small limit;  *)
(* the emitted cases place the same lines around the real one.             *)
(***************************************************************************)
EXTENDS Folding, Emit

CONSTANTS Alphabet, MaxLen, SmallLimit, Pads, Tails

VARIABLES line,  \* the content line
          done,  \* how much of it is written
          text,  \* the written text
          width, \* octets of the current physical line
          closed
vars == <<line, done, text, width, closed>>

AllLines == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Init == line \in {l \in AllLines : ~Blank(l[1])} /\ done = 0 /\ text = <<>> /\ width = 0 /\ closed = FALSE
Put == /\ ~closed /\ done < Len(line) /\ width + Octets(line[done + 1]) <= SmallLimit
       /\ done' = done + 1 /\ text' = Append(text, line[done + 1]) /\ width' = width + Octets(line[done + 1])
       /\ UNCHANGED <<line, closed>>
Fold == /\ ~closed /\ done < Len(line) /\ width > 1
        /\ text' = text \o CRLF \o <<SP>> /\ width' = 1 /\ UNCHANGED <<line, done, closed>>
Close == /\ ~closed /\ done = Len(line) /\ text' = text \o CRLF /\ closed' = TRUE /\ UNCHANGED <<line, done, width>>
Next == Put \/ Fold \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what is not yet written and what is written give the line *)
NothingLost == ~closed => Unfold(text) = SubSeq(line, 1, done)
Readable == closed => Unfold(text) = line \o CRLF
Bounded == closed => OnlyCrLf(text) /\ EndsCrLf(text) /\ Longest(text) <= SmallLimit /\ ~Blank(text[1]) /\ NoTabFold(text)
NotStuck == ~closed => ENABLED Next
(* the writer always finishes *)
Finishes == <>closed

Emitted == done = 0 => \A n \in Pads : \A t \in Tails :
    Emit("prop", [k |-> T("SUMMARY"), v |-> [i \in 1..n |-> 97] \o line \o [i \in 1..t |-> 98], p |-> <<>>])
=============================================================================
