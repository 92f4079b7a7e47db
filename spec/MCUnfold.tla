------------------------------ MODULE MCUnfold ------------------------------
(***************************************************************************)
(* Unfolding as an automaton that sees one character at a time and holds   *)
(* back at most a line break.                                              *)
(***************************************************************************)
EXTENDS Folding, Emit

CONSTANTS Alphabet, MaxLen, ReadToo

VARIABLES text, out, held
vars == <<text, out, held>>
Init == text = <<>> /\ out = <<>> /\ held = <<>>
Take(c) ==
    /\ text' = Append(text, c)
    /\ CASE c = LF -> IF held = <<CR>> THEN out' = out /\ held' = CRLF
                      ELSE out' = out \o held /\ held' = <<LF>>
         [] c = CR -> out' = out \o held /\ held' = <<CR>>
         [] Blank(c) /\ held \in {<<LF>>, CRLF} -> out' = out /\ held' = <<>>
         [] OTHER -> out' = Append(out \o held, c) /\ held' = <<>>
Next == \E c \in Alphabet : Len(text) < MaxLen /\ Take(c)
Spec == Init /\ [][Next]_vars

SameAsUnfold == Unfold(text) = out \o held
(* nothing but fold marks is taken out *)
KeepsOthers == SelectSeq(Unfold(text), LAMBDA c : c \notin {CR, LF, SP, TAB}) = SelectSeq(text, LAMBDA c : c \notin {CR, LF, SP, TAB})
NoFoldLeft == \* the marks that are left were made by removing others
    Unfold(text) = text <=> ~\E i \in 1..(Len(text) - 1) : text[i] = LF /\ Blank(text[i + 1])
(* lines: joining them gives the text again *)
LinesCover == UniformEol(text) /\ EndsCrLf(text) =>
    Concat([i \in 1..Len(Lines(text)) |-> Lines(text)[i] \o CRLF]) = text

Emitted == /\ Emit("unfold", [text |-> text])
           /\ (ReadToo => Emit("read", [text |-> T("BEGIN:X") \o text \o T("A:b") \o text \o CRLF \o T("END:X"), full |-> 0]))
=============================================================================
