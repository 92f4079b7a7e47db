------------------------------ MODULE DateTime ------------------------------
(***************************************************************************)
(* DATE and DATE-TIME values (RFC 5545 3.3.4, 3.3.5).  A value is          *)
(*   [f |-> "date", y, m, d]  or                                           *)
(*   [f |-> "floating" | "utc" | "zoned", y, m, d, H, M, S, (tz)].         *)
(***************************************************************************)
EXTENDS Chars, Types

LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF LeapYear(y) THEN 29 ELSE 28 [] OTHER -> 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidTime(h, mi, s) == h <= 23 /\ mi <= 59 /\ s <= 59

UpperT == 84 UpperZ == 90
DateText(v) == Pad(v.y, 4) \o Pad(v.m, 2) \o Pad(v.d, 2)
TimeText(v) == Pad(v.H, 2) \o Pad(v.M, 2) \o Pad(v.S, 2)
LocalText(v) == DateText(v) \o <<UpperT>> \o TimeText(v)
UtcText(v) == Append(LocalText(v), UpperZ)
ValueText(v) == CASE v.f = "date" -> DateText(v) [] v.f = "utc" -> UtcText(v) [] OTHER -> LocalText(v)
DATE == T("DATE")
TZID == T("TZID")
(* the parameters that go with a form *)
FormParams(v) == CASE v.f = "date" -> {<<VALUE, DATE>>} [] v.f = "zoned" -> {<<TZID, v.tz>>} [] OTHER -> {}

(***************************************************************************)
(* Reading.  `Shape' says what a text looks like: every digit counts, so   *)
(* a text that only resembles a date (blanks, signs, missing or additional *)
(* digits) is none.  "loose" is the 60th second, which calendars may have  *)
(* and a clock value has no place for: nothing is said about it.           *)
(***************************************************************************)
LOCAL TwoAt(t, i) == (t[i] - 48) * 10 + (t[i + 1] - 48)
LOCAL YearOf(t) == TwoAt(t, 1) * 100 + TwoAt(t, 3)
LOCAL DigitsAt(t, a, b) == \A i \in a..b : Digit(t[i])
LOCAL DateShape(t) == Len(t) >= 8 /\ DigitsAt(t, 1, 8)
LOCAL TimeShape(t) == Len(t) >= 15 /\ t[9] = UpperT /\ DigitsAt(t, 10, 15)
LOCAL IsDateShape(t) == Len(t) = 8 /\ DateShape(t)
LOCAL IsLocalShape(t) == Len(t) = 15 /\ DateShape(t) /\ TimeShape(t)
LOCAL IsUtcShape(t) == Len(t) = 16 /\ DateShape(t) /\ TimeShape(t) /\ t[16] = UpperZ
Shape(t) ==
    IF IsDateShape(t) THEN "date"
    ELSE IF ~IsLocalShape(t) /\ ~IsUtcShape(t) THEN "none"
    ELSE IF TwoAt(t, 14) = 60 THEN "loose"
    ELSE IF IsUtcShape(t) THEN "utc" ELSE "local"
GoodDate(t) == ValidDate(YearOf(t), TwoAt(t, 5), TwoAt(t, 7))
GoodTime(t) == ValidTime(TwoAt(t, 10), TwoAt(t, 12), TwoAt(t, 14))
DateOf(t) == [f |-> "date", y |-> YearOf(t), m |-> TwoAt(t, 5), d |-> TwoAt(t, 7)]
LocalOf(t, f) == [f |-> f, y |-> YearOf(t), m |-> TwoAt(t, 5), d |-> TwoAt(t, 7),
                  H |-> TwoAt(t, 10), M |-> TwoAt(t, 12), S |-> TwoAt(t, 14)]
Zoned(v, tz) == [f |-> "zoned", y |-> v.y, m |-> v.m, d |-> v.d, H |-> v.H, M |-> v.M, S |-> v.S, tz |-> tz]

(***************************************************************************)
(* What a property with this type, time zone parameter (<<>> or <<tz>>)    *)
(* and value means: <<value>>, none, or "loose".                           *)
(***************************************************************************)
Some(v) == [st |-> "some", v |-> v]
None == [st |-> "none"]
Loose == [st |-> "loose"]
MeansDate(type, tz, t) ==
    LET s == Shape(t) IN
    IF s = "loose" THEN Loose
    ELSE IF s = "none" THEN None
    ELSE IF ~GoodDate(t) \/ (s # "date" /\ ~GoodTime(t)) THEN None
    ELSE IF type = "DATE" THEN IF s = "date" THEN Some(DateOf(t)) ELSE None
    ELSE IF s = "date" THEN None
    ELSE IF tz # <<>> THEN IF s = "local" THEN Some(Zoned(LocalOf(t, "zoned"), tz[1])) ELSE None
    ELSE Some(LocalOf(t, IF s = "utc" THEN "utc" ELSE "floating"))
MeansUtc(t) ==
    LET s == Shape(t) IN
    IF s = "loose" THEN Loose
    ELSE IF s = "utc" /\ GoodDate(t) /\ GoodTime(t) THEN Some(LocalOf(t, "utc")) ELSE None
(***************************************************************************)
(* What the conversion from a parsed property makes of a text if it makes  *)
(* anything of it: it goes by the text and the time zone only.             *)
(***************************************************************************)
ByText(tz, t) ==
    LET s == Shape(t) IN
    IF s = "loose" THEN Loose
    ELSE IF s = "none" \/ ~GoodDate(t) \/ (s # "date" /\ ~GoodTime(t)) THEN None
    ELSE IF s = "date" THEN Some(DateOf(t))
    ELSE IF s = "utc" THEN Some(LocalOf(t, "utc"))
    ELSE IF tz # <<>> THEN Some(Zoned(LocalOf(t, "zoned"), tz[1]))
    ELSE Some(LocalOf(t, "floating"))
(* a date-time without any parameters *)
MeansDateTime(t) ==
    LET s == Shape(t) IN
    IF s = "loose" THEN Loose
    ELSE IF s \in {"utc", "local"} /\ GoodDate(t) /\ GoodTime(t)
    THEN Some(LocalOf(t, IF s = "utc" THEN "utc" ELSE "floating")) ELSE None
DatePart(v) == [f |-> "date", y |-> v.y, m |-> v.m, d |-> v.d]

(* recorded values carry nanoseconds; whole seconds are all we make *)
Obs(v) ==
    IF v.f = "date" THEN [f |-> "date", y |-> v.y, m |-> v.m, d |-> v.d]
    ELSE IF v.f = "zoned" THEN Zoned(v, v.tz)
    ELSE [f |-> v.f, y |-> v.y, m |-> v.m, d |-> v.d, H |-> v.H, M |-> v.M, S |-> v.S]
WholeSeconds(v) == v.f = "date" \/ v.ns = 0
(***************************************************************************)
(* What is set may be between two seconds.  That part is not written, so   *)
(* it is gone for whoever reads it; conversions without text keep it.      *)
(***************************************************************************)
Fraction(v) == IF "ns" \in DOMAIN v THEN v.ns ELSE 0
SameMoment(v, o) == Obs(o) = Obs(v) /\ (v.f = "date" \/ o.ns = Fraction(v))
(* the recorded optional value o is what e says *)
Says(e, o) ==
    CASE e.st = "loose" -> TRUE
      [] e.st = "none" -> o.st \in {"none", "err"}
      [] e.st = "some" -> o.st \in {"some", "ok"} /\ Obs(o.v) = e.v /\ WholeSeconds(o.v)
(* the same of something that was n nanoseconds behind the second *)
SaysWith(e, n, o) ==
    CASE e.st = "loose" -> TRUE
      [] e.st = "none" -> o.st \in {"none", "err"}
      [] e.st = "some" -> o.st \in {"some", "ok"} /\ Obs(o.v) = e.v /\ o.v.ns = n
=============================================================================
