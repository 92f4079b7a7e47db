------------------------------- MODULE Zones -------------------------------
(***************************************************************************)
(* Offsets of some zones in the years 2010 to 2030, written from the legal *)
(* rules.  Instants are minutes since 2009-01-01 00:00 UTC.                *)
(***************************************************************************)
EXTENDS DateTime

Years == 2009..2031
DaysBefore(y) == FoldLeft(LAMBDA acc, k : acc + (IF LeapYear(2008 + k) THEN 366 ELSE 365), 0, [k \in 1..(y - 2009) |-> k])
YearStart == [y \in 2009..2032 |-> DaysBefore(y)]
DayOfYear(y, m, d) == FoldLeft(LAMBDA acc, k : acc + DaysIn(y, k), 0, [k \in 1..(m - 1) |-> k]) + d - 1
DayNo(y, m, d) == YearStart[y] + DayOfYear(y, m, d)
Minutes(v) == DayNo(v.y, v.m, v.d) * 1440 + v.H * 60 + v.M
(* 2009-01-01 was a Thursday; 0 is Sunday *)
Weekday(n) == (n + 4) % 7
FirstSunday(y, m, from) == LET n == DayNo(y, m, from) IN n + ((7 - Weekday(n)) % 7)
LastSunday(y, m) == FirstSunday(y, m, DaysIn(y, m) - 6)

(* zone -> offsets in minutes; instants at which daylight saving time starts and ends *)
ZoneTable ==
    [T_Berlin |-> [std |-> 60, dst |-> 120],
     T_NewYork |-> [std |-> -300, dst |-> -240],
     T_Auckland |-> [std |-> 720, dst |-> 780],
     T_LordHowe |-> [std |-> 630, dst |-> 660]]
Starts == [T_Berlin |-> [y \in Years |-> LastSunday(y, 3) * 1440 + 60],
           T_NewYork |-> [y \in Years |-> FirstSunday(y, 3, 8) * 1440 + 120 + 300],
           T_Auckland |-> [y \in Years |-> LastSunday(y, 9) * 1440 + 120 - 720],
           T_LordHowe |-> [y \in Years |-> FirstSunday(y, 10, 1) * 1440 + 120 - 630]]
Ends == [T_Berlin |-> [y \in Years |-> LastSunday(y, 10) * 1440 + 60],
         T_NewYork |-> [y \in Years |-> FirstSunday(y, 11, 1) * 1440 + 120 + 240],
         T_Auckland |-> [y \in Years |-> FirstSunday(y, 4, 1) * 1440 + 180 - 780],
         T_LordHowe |-> [y \in Years |-> FirstSunday(y, 4, 1) * 1440 + 120 - 660]]
LOCAL Variable == [t \in {T("Europe/Berlin"), T("America/New_York"), T("Pacific/Auckland"), T("Australia/Lord_Howe")} |->
    CASE t = T("Europe/Berlin") -> "T_Berlin"
      [] t = T("America/New_York") -> "T_NewYork"
      [] t = T("Pacific/Auckland") -> "T_Auckland"
      [] t = T("Australia/Lord_Howe") -> "T_LordHowe"]
LOCAL Fixed ==
    [t \in {T("UTC"), T("Etc/UTC"), T("Etc/GMT")} |-> 0]
    @@ [t \in {T("Asia/Kolkata")} |-> 330]
    @@ [t \in {T("Asia/Tokyo")} |-> 540]
    @@ [t \in {T("Etc/GMT+") \o DigitsOf(n) : n \in 1..12} |-> -60 * NumOf(SubSeq(t, 9, Len(t)))]
    @@ [t \in {T("Etc/GMT-") \o DigitsOf(n) : n \in 1..14} |-> 60 * NumOf(SubSeq(t, 9, Len(t)))]
FixedZones == DOMAIN Fixed
VariableZones == DOMAIN Variable
KnownZone(tz) == tz \in FixedZones \/ tz \in VariableZones
UnknownZones == {T("Europe/Atlantis"), T("europe/berlin"), T("Nowhere"), <<>>, T("Europe/Berlin "), T("EUROPE/BERLIN"), T("Etc/GMT+99")}

(* is daylight saving time in force at instant u (a minute) *)
Summer(z, u) ==
    \E y \in Years :
        IF Starts[z][y] < Ends[z][y]
        THEN u >= Starts[z][y] /\ u < Ends[z][y]
        ELSE y + 1 \in Years /\ u >= Starts[z][y] /\ u < Ends[z][y + 1]
OffsetAt(tz, u) ==
    IF tz \in FixedZones THEN Fixed[tz]
    ELSE LET z == Variable[tz] IN IF Summer(z, u) THEN ZoneTable[z].dst ELSE ZoneTable[z].std
Offsets(tz) == IF tz \in FixedZones THEN {Fixed[tz]} ELSE {ZoneTable[Variable[tz]].std, ZoneTable[Variable[tz]].dst}
(* the instants that have this local time *)
Instants(tz, local) == {local - o : o \in {o \in Offsets(tz) : OffsetAt(tz, local - o) = o}}

(* calendar date and time of a minute *)
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, day) == IF day < DaysIn(y, m) THEN <<m, day + 1>> ELSE MonthFrom(y, m + 1, day - DaysIn(y, m))
Civil(u, sec, f) ==
    LET n == u \div 1440
        y == CHOOSE y \in Years : YearStart[y] <= n /\ n < YearStart[y + 1]
        md == MonthFrom(y, 1, n - YearStart[y])
    IN [f |-> f, y |-> y, m |-> md[1], d |-> md[2], H |-> (u % 1440) \div 60, M |-> u % 60, S |-> sec]

ToUtc(tz, v) ==
    LET us == Instants(tz, Minutes(v)) IN
    IF Cardinality(us) = 1 THEN Some(Civil(CHOOSE u \in us : TRUE, v.S, "utc")) ELSE None
(***************************************************************************)
(* The same for any zone and year, with the zone database as part of the   *)
(* environment: `near' are the pairs <<o, p>> of an offset o (seconds)     *)
(* that is in force somewhere within a day, and the offset p that is in    *)
(* force at the instant `local - o'.                                       *)
(***************************************************************************)
LOCAL DayAfter(v) ==
    IF v.d < DaysIn(v.y, v.m) THEN [v EXCEPT !.d = @ + 1]
    ELSE IF v.m < 12 THEN [v EXCEPT !.d = 1, !.m = @ + 1] ELSE [v EXCEPT !.d = 1, !.m = 1, !.y = @ + 1]
LOCAL DayBefore(v) ==
    IF v.d > 1 THEN [v EXCEPT !.d = @ - 1]
    ELSE IF v.m > 1 THEN [v EXCEPT !.d = DaysIn(v.y, v.m - 1), !.m = @ - 1] ELSE [v EXCEPT !.d = 31, !.m = 12, !.y = @ - 1]
RECURSIVE PlusDays(_, _)
PlusDays(v, k) == IF k = 0 THEN v ELSE IF k > 0 THEN PlusDays(DayAfter(v), k - 1) ELSE PlusDays(DayBefore(v), k + 1)
PlusSeconds(v, n, f) ==
    LET t == v.H * 3600 + v.M * 60 + v.S + n
        s == t % 86400
        w == PlusDays([y |-> v.y, m |-> v.m, d |-> v.d], t \div 86400)
    IN [f |-> f, y |-> w.y, m |-> w.m, d |-> w.d, H |-> s \div 3600, M |-> (s % 3600) \div 60, S |-> s % 60]
InForce(near) == {near[i][1] : i \in {i \in 1..Len(near) : near[i][1] = near[i][2]}}
UtcOf(v, near) ==
    LET os == InForce(near) IN
    IF Cardinality(os) = 1 THEN Some(PlusSeconds(v, -(CHOOSE o \in os : TRUE), "utc")) ELSE None

FromUtc(tz, v) ==
    LET u == Minutes(v) IN Zoned(Civil(u + OffsetAt(tz, u), v.S, "zoned"), tz)
=============================================================================
