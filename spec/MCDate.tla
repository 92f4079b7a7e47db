------------------------------- MODULE MCDate -------------------------------
(***************************************************************************)
(* The calendar as a walk: every day of the years from which it starts,    *)
(* one day after the other.                                                *)
(***************************************************************************)
EXTENDS Zones, Emit

CONSTANTS StartYears, AllForms

VARIABLES today_, walked_
vars == <<today_, walked_>>

Tomorrow(t) ==
    IF t.d < DaysIn(t.y, t.m) THEN [t EXCEPT !.d = @ + 1]
    ELSE IF t.m < 12 THEN [t EXCEPT !.m = @ + 1, !.d = 1]
    ELSE [t EXCEPT !.y = @ + 1, !.m = 1, !.d = 1]
Init == \E y \in StartYears : today_ = [f |-> "date", y |-> y, m |-> 1, d |-> 1] /\ walked_ = 0
Next == /\ ~(today_.m = 12 /\ today_.d = 31)
        /\ today_' = Tomorrow(today_) /\ walked_' = walked_ + 1
Spec == Init /\ [][Next]_vars

Valid == ValidDate(today_.y, today_.m, today_.d)
(* the day after the last one of a month is none *)
LastDay == (Tomorrow(today_).m # today_.m) <=> ~ValidDate(today_.y, today_.m, today_.d + 1)
FullYear == (today_.m = 12 /\ today_.d = 31) => walked_ = (IF LeapYear(today_.y) THEN 365 ELSE 364)
Numbered == today_.y \in 2009..2031 =>
    /\ DayNo(today_.y, today_.m, today_.d) = YearStart[today_.y] + walked_
    /\ Civil(DayNo(today_.y, today_.m, today_.d) * 1440 + 61, 5, "utc")
         = [f |-> "utc", y |-> today_.y, m |-> today_.m, d |-> today_.d, H |-> 1, M |-> 1, S |-> 5]
(* a known anchor: 2024-02-29 was a Thursday, 2000 days later 2029-08-21 a Tuesday *)
Weekdays == /\ ([today_ EXCEPT !.f = "date"] = [f |-> "date", y |-> 2024, m |-> 2, d |-> 29] => Weekday(DayNo(2024, 2, 29)) = 4)
            /\ ([today_ EXCEPT !.f = "date"] = [f |-> "date", y |-> 2029, m |-> 8, d |-> 21] =>
                  Weekday(DayNo(2029, 8, 21)) = 2 /\ DayNo(2029, 8, 21) = DayNo(2024, 2, 29) + 2000)
(* written texts mean the day and nothing else, and sort like the days *)
Hours == {<<0, 0, 0>>, <<23, 59, 59>>, <<12, 34, 56>>}
At(t, f, h) == [f |-> f, y |-> t.y, m |-> t.m, d |-> t.d, H |-> h[1], M |-> h[2], S |-> h[3]]
MeansItself ==
    /\ MeansDate("DATE", <<>>, ValueText(today_)) = Some(today_)
    /\ MeansDate("DATE-TIME", <<>>, ValueText(today_)) = None
    /\ \A h \in Hours :
         /\ MeansDate("DATE-TIME", <<>>, ValueText(At(today_, "utc", h))) = Some(At(today_, "utc", h))
         /\ MeansDate("DATE-TIME", <<>>, ValueText(At(today_, "floating", h))) = Some(At(today_, "floating", h))
         /\ MeansDate("DATE-TIME", <<T("X")>>, ValueText(At(today_, "floating", h))) = Some(Zoned(At(today_, "zoned", h), T("X")))
         /\ MeansDate("DATE-TIME", <<T("X")>>, ValueText(At(today_, "utc", h))) = None
         /\ MeansDate("DATE", <<>>, ValueText(At(today_, "floating", h))) = None
         /\ MeansUtc(ValueText(At(today_, "utc", h))) = Some(At(today_, "utc", h))
         /\ MeansUtc(ValueText(At(today_, "floating", h))) = None
Sorted == [][\E i \in 1..8 : LET a == DateText(today_) b == DateText(today_') IN a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]]_vars

DateKeys == <<"DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED">>
DayKey == T(DateKeys[1 + ((today_.d + today_.m) % 7)])
Edge == today_.d \in {1, 28, 29, 30, 31}
DayHour == <<(today_.d * 7) % 24, (today_.d * 11) % 60, (today_.m * 13) % 60>>
FormsOf == IF AllForms \/ Edge THEN {"date", "utc", "floating", "zoned"}
           ELSE CASE today_.d % 4 = 0 -> {"date"} [] today_.d % 4 = 1 -> {"utc"} [] today_.d % 4 = 2 -> {"floating"} [] OTHER -> {"zoned"}
Emitted == \A f \in FormsOf :
    Emit("dt", [v |-> CASE f = "date" -> today_
                        [] f = "zoned" -> Zoned(At(today_, f, DayHour), T("Asia/Kolkata"))
                        [] OTHER -> At(today_, f, DayHour),
                key |-> DayKey])
=============================================================================
