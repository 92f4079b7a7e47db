------------------------------ MODULE Folding ------------------------------
(***************************************************************************)
(* Content lines in transport (RFC 5545 3.1).                              *)
(***************************************************************************)
EXTENDS Chars

Limit == 75

(***************************************************************************)
(* Reading: remove every line break together with the one space or tab     *)
(* that follows it.                                                        *)
(***************************************************************************)
Unfold(text) ==
    LET n == Len(text)
        fold(i) == text[i] = LF /\ i < n /\ Blank(text[i + 1])
        step(acc, i) == \* acc = <<output, start of the segment not yet copied>>
            IF fold(i)
            THEN <<acc[1] \o SubSeq(text, acc[2], IF i > acc[2] /\ text[i - 1] = CR THEN i - 2 ELSE i - 1), i + 2>>
            ELSE acc
        end == FoldLeft(step, <<<<>>, 1>>, Indices(text))
    IN IF \E i \in 1..n : fold(i) THEN end[1] \o SubSeq(text, end[2], n) ELSE text

(***************************************************************************)
(* Lines.  A line break is LF or CR LF.  The result lists the lines; what  *)
(* follows the last line break is a last line if it is not empty.          *)
(***************************************************************************)
Lines(text) ==
    LET n == Len(text)
        step(acc, i) ==
            IF text[i] = LF
            THEN <<Append(acc[1], SubSeq(text, acc[2], IF i > acc[2] /\ text[i - 1] = CR THEN i - 2 ELSE i - 1)), i + 1>>
            ELSE acc
        end == FoldLeft(step, <<<<>>, 1>>, Indices(text))
    IN IF end[2] <= n THEN Append(end[1], SubSeq(text, end[2], n)) ELSE end[1]

(* all line breaks are CR LF, or all are LF (and no line ends in CR) *)
UniformEol(text) ==
    \/ \A i \in 1..Len(text) : text[i] = LF => i > 1 /\ text[i - 1] = CR
    \/ \A i \in 1..Len(text) : text[i] = LF => i = 1 \/ text[i - 1] # CR

(***************************************************************************)
(* Writing.  Physical lines end in CR LF, with no other line feed.         *)
(***************************************************************************)
OnlyCrLf(text) == \A i \in 1..Len(text) : text[i] = LF => i > 1 /\ text[i - 1] = CR
EndsCrLf(text) == Len(text) >= 2 /\ text[Len(text)] = LF /\ text[Len(text) - 1] = CR
(* octets of the longest line *)
Longest(text) ==
    LET step(acc, c) == \* <<longest, octets of this line>>
            IF c = LF THEN <<IF acc[2] - 1 > acc[1] THEN acc[2] - 1 ELSE acc[1], 0>>
            ELSE <<acc[1], acc[2] + Octets(c)>>
    IN FoldLeft(step, <<0, 0>>, text)[1]
WellFolded(text) == text # <<>> /\ OnlyCrLf(text) /\ EndsCrLf(text) /\ Longest(text) <= Limit /\ ~Blank(text[1])
(* continuation lines of the writer start with a space, not a tab *)
NoTabFold(text) == \A i \in 1..(Len(text) - 1) : ~(text[i] = LF /\ text[i + 1] = TAB)
=============================================================================
