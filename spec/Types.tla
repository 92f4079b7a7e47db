------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Value types (RFC 5545 3.2.20, 3.3, 8.3.4): the type of a property is    *)
(* named by its VALUE parameter, otherwise given by its name.              *)
(***************************************************************************)
EXTENDS Chars

TypeNames == {"BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER",
              "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"}
NONE == "NONE"

TextNames == {"CALSCALE", "METHOD", "PRODID", "VERSION", "NAME", "X-WR-CALNAME", "X-WR-CALDESC",
    "CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "SUMMARY", "TRANSP",
    "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION", "REQUEST-STATUS"}
ByName ==
    [n \in TextNames |-> "TEXT"]
    @@ [n \in {"PERCENT-COMPLETE", "PRIORITY", "REPEAT", "SEQUENCE"} |-> "INTEGER"]
    @@ [n \in {"COMPLETED", "DTEND", "DUE", "DTSTART", "RECURRENCE-ID", "EXDATE", "RDATE", "CREATED", "DTSTAMP",
               "LAST-MODIFIED"} |-> "DATE-TIME"]
    @@ [n \in {"DURATION", "TRIGGER"} |-> "DURATION"]
    @@ [n \in {"ATTENDEE", "ORGANIZER"} |-> "CAL-ADDRESS"]
    @@ [n \in {"ATTACH", "TZURL", "URL"} |-> "URI"]
    @@ [n \in {"TZOFFSETFROM", "TZOFFSETTO"} |-> "UTC-OFFSET"]
    @@ [n \in {"FREEBUSY"} |-> "PERIOD"]
    @@ [n \in {"RRULE"} |-> "RECUR"]
    @@ [n \in {"GEO"} |-> "FLOAT"]
KnownNames == DOMAIN ByName
(* @@ makes TLC tabulate these functions once *)
NameTable == <<>> @@ [t \in {T(n) : n \in KnownNames} |-> ByName[CHOOSE n \in KnownNames : T(n) = t]]
NameTexts == DOMAIN NameTable
TypeTable == <<>> @@ [t \in {T(n) : n \in TypeNames} |-> CHOOSE n \in TypeNames : T(n) = t]
TypeTexts == DOMAIN TypeTable

TypeOfName(name) == IF name \in NameTexts THEN NameTable[name] ELSE NONE
TypeOfValue(val) == IF val \in TypeTexts THEN TypeTable[val] ELSE NONE
VALUE == T("VALUE")

(* params: a sequence of tuples whose first element is the name and whose third is the value *)
TypeOf(name, params) ==
    LET i == First(params, LAMBDA p : p[1] = VALUE)
        byValue == IF i = 0 THEN NONE ELSE TypeOfValue(params[i][3])
    IN IF byValue # NONE THEN byValue ELSE TypeOfName(name)
(* several VALUE parameters are no valid line: nothing is said about them *)
AmbiguousType(params) == \E i, j \in 1..Len(params) : i < j /\ params[i][1] = VALUE /\ params[j][1] = VALUE
=============================================================================
