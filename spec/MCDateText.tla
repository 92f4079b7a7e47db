----------------------------- MODULE MCDateText -----------------------------
(***************************************************************************)
(* Texts put together like dates and date-times, from possible and         *)
(* impossible parts, complete or not.                                      *)
(***************************************************************************)
EXTENDS DateTime, Emit

CONSTANTS YearParts, MonthParts, DayParts, HourParts, MinuteParts, SecondParts, TailParts

Plain_ == <<"2024", "02", "29">>
VARIABLES parts_
vars == <<parts_>>
Choice(n) == CASE n = 0 -> YearParts [] n = 1 -> MonthParts [] n = 2 -> DayParts [] n = 3 -> {"T"} [] n = 4 -> HourParts
               [] n = 5 -> MinuteParts [] n = 6 -> SecondParts [] n = 7 -> TailParts [] OTHER -> {}
Init == parts_ = <<>>
(* dates other than the plain one are not continued with all times *)
Next == \E x \in Choice(Len(parts_)) :
    /\ (Len(parts_) >= 4 /\ SubSeq(parts_, 1, 3) # Plain_ =>
            x \in {"00", "59", "Z"} \cup (IF Len(parts_) = 4 THEN {"00", "24"} ELSE {}))
    /\ parts_' = Append(parts_, x)
Spec == Init /\ [][Next]_vars

Text_ == Concat([i \in 1..Len(parts_) |-> T(parts_[i])])
Num(i) == NumOf(T(parts_[i]))
Dated == Len(parts_) >= 3 /\ ValidDate(Num(1), Num(2), Num(3))
Timed == Len(parts_) >= 7 /\ ValidTime(Num(5), Num(6), Num(7))
IsDay == Len(parts_) = 3 /\ Dated
IsLocal == Len(parts_) = 7 /\ Dated /\ Timed
IsUtc == Len(parts_) = 8 /\ parts_[8] = "Z" /\ Dated /\ Timed
DayValue == [f |-> "date", y |-> Num(1), m |-> Num(2), d |-> Num(3)]
TimeValue(f) == [f |-> f, y |-> Num(1), m |-> Num(2), d |-> Num(3), H |-> Num(5), M |-> Num(6), S |-> Num(7)]
Or(cond, v) == IF cond THEN Some(v) ELSE None
ByParts ==
    LET loose == Shape(Text_) = "loose" IN
    loose \/
    /\ MeansDate("DATE", <<>>, Text_) = (IF IsDay THEN Some(DayValue) ELSE None)
    /\ MeansDate("DATE-TIME", <<>>, Text_) = (IF IsLocal THEN Some(TimeValue("floating")) ELSE IF IsUtc THEN Some(TimeValue("utc")) ELSE None)
    /\ MeansDate("DATE-TIME", <<T("A/B")>>, Text_) = (IF IsLocal THEN Some(Zoned(TimeValue("zoned"), T("A/B"))) ELSE None)
    /\ MeansUtc(Text_) = (IF IsUtc THEN Some(TimeValue("utc")) ELSE None)
    /\ MeansDateTime(Text_) = (IF IsLocal THEN Some(TimeValue("floating")) ELSE IF IsUtc THEN Some(TimeValue("utc")) ELSE None)
(* nothing is said only about the 60th second *)
LooseRare == Shape(Text_) = "loose" => Len(parts_) >= 7 /\ Num(7) = 60
(* the conversion that goes by the text says the same as the others where they say something *)
Agreeing ==
    \A tz \in {<<>>, <<T("A/B")>>} : \A type \in {"DATE", "DATE-TIME"} :
        LET m == MeansDate(type, tz, Text_) IN m.st = "some" => ByText(tz, Text_) = m
(* a value is read from one text of a form only *)
OneText == /\ (IsDay => DateText(DayValue) = Text_)
           /\ (IsLocal => LocalText(TimeValue("floating")) = Text_)
           /\ (IsUtc => UtcText(TimeValue("utc")) = Text_)

Dates == {"DTSTART", "DTEND", "DUE"}
Stamps == {"DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED"}
Sum == IF Len(parts_) >= 3 THEN Num(2) + Num(3) + Len(parts_) ELSE 0
DateName == <<"DTSTART", "DTEND", "DUE">>[1 + (Sum % 3)]
StampName == <<"DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED">>[1 + (Sum % 4)]
Emitted == Len(parts_) >= 3 =>
    /\ Emit("dtraw", [k |-> T(DateName), v |-> Text_, p |-> <<>>])
    /\ Emit("dtraw", [k |-> T(DateName), v |-> Text_, p |-> <<<<VALUE, DATE>>>>])
    /\ Emit("dtraw", [k |-> T(DateName), v |-> Text_, p |-> <<<<TZID, T("Europe/Berlin")>>>>])
    /\ Emit("dtraw", [k |-> T(StampName), v |-> Text_, p |-> <<>>])
=============================================================================
