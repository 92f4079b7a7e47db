----------------------------- MODULE MCTransport -----------------------------
(***************************************************************************)
(* The same content lines in transport: folded wherever the sender likes,  *)
(* with either line ending, with empty lines between them and with BEGIN   *)
(* and END in any case.  The receiver reads the same.                      *)
(***************************************************************************)
EXTENDS Reader, Emit

CONSTANTS Which, MaxFolds, MaxBlanks, Marks

Content ==
    CASE Which = "tiny" -> <<"BEGIN:A", "P:1", "END:A">>
      [] Which = "nested" -> <<"BEGIN:A", "BEGIN:B", "END:B", "Q;X=y:  z", "END:A">>
      [] Which = "text" -> <<"BEGIN:A", "SUMMARY:a\\n \\,\\", "END:A">>
      [] Which = "two" -> <<"BEGIN:A", "END:A", "BEGIN:A", "K", "END:A">>
VARIABLES sent_,   \* what is under way
          pos_,    \* <<line, character>> to be sent next
          folds_, blanks_, eol_, case_
vars == <<sent_, pos_, folds_, blanks_, eol_, case_>>

LowerText(t) == [i \in 1..Len(t) |-> IF Upper(t[i]) THEN t[i] + 32 ELSE t[i]]
TagLen(t) == IF StartsWith(t, T("BEGIN:")) THEN 6 ELSE IF StartsWith(t, T("END:")) THEN 4 ELSE 0
Cased(t) == LET k == TagLen(t) IN
    CASE case_ = "upper" -> t
      [] case_ = "lower" -> LowerText(SubSeq(t, 1, k)) \o SubSeq(t, k + 1, Len(t))
      [] case_ = "mixed" -> [i \in 1..Len(t) |-> IF i <= k /\ i % 2 = 0 /\ Upper(t[i]) THEN t[i] + 32 ELSE t[i]]
Line_(i) == Cased(T(Content[i]))
Init == sent_ = <<>> /\ pos_ = <<1, 1>> /\ folds_ = 0 /\ blanks_ = 0 /\ eol_ \in {CRLF, <<LF>>} /\ case_ \in {"upper", "lower", "mixed"}
Done == pos_[1] > Len(Content)
Put == /\ ~Done /\ pos_[2] <= Len(Line_(pos_[1]))
       /\ sent_' = Append(sent_, Line_(pos_[1])[pos_[2]]) /\ pos_' = <<pos_[1], pos_[2] + 1>>
       /\ UNCHANGED <<folds_, blanks_, eol_, case_>>
Fold == /\ ~Done /\ folds_ < MaxFolds /\ pos_[2] > 1
        /\ \E m \in Marks : sent_' = sent_ \o eol_ \o <<m>>
        /\ folds_' = folds_ + 1 /\ UNCHANGED <<pos_, blanks_, eol_, case_>>
Break == /\ ~Done /\ pos_[2] > Len(Line_(pos_[1]))
         /\ sent_' = sent_ \o eol_ /\ pos_' = <<pos_[1] + 1, 1>> /\ UNCHANGED <<folds_, blanks_, eol_, case_>>
Blankline == /\ pos_[2] = 1 /\ blanks_ < MaxBlanks /\ sent_' = sent_ \o eol_
             /\ blanks_' = blanks_ + 1 /\ UNCHANGED <<pos_, folds_, eol_, case_>>
Next == Put \/ Fold \/ Break \/ Blankline
Spec == Init /\ [][Next]_vars

Direct == ReadLines([i \in 1..Len(Content) |-> T(Content[i])])
Received == ReadText(Unfold(sent_))
Transparent == Done => Received = Direct /\ Finished(Received)
(* what has arrived is a prefix of the content lines *)
Prefix_ == pos_[2] = 1 => Received = ReadLines([i \in 1..(pos_[1] - 1) |-> T(Content[i])])
Emitted == Done => Emit("read", [text |-> sent_, full |-> 0])
=============================================================================
