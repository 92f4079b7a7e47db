-------------------------------- MODULE MCDur --------------------------------
(***************************************************************************)
(* Durations put together part by part.  Every part that RFC 5545 allows   *)
(* next is taken; with Wild, also all other parts.                         *)
(***************************************************************************)
EXTENDS Store, Emit

CONSTANTS Numbers, Fractions, Wild, MaxParts

VARIABLES said_, \* the text
          sum_,  \* its value in seconds, as long as it follows the grammar
          ms_,   \* and in milliseconds beyond them
          at_    \* where in the grammar
vars == <<said_, sum_, ms_, at_>>
Signs == {"", "-", "+"}
Init == \E s \in Signs : said_ = T(s) \o T("P") /\ sum_ = 0 /\ ms_ = 0 /\ at_ = <<"P", s, 0>>
Where == at_[1]
Part(x, secs, to) == said_' = said_ \o T(x) /\ sum_' = sum_ + secs /\ ms_' = 0 /\ at_' = <<to, at_[2], at_[3] + 1>>
Weeks == Where = "P" /\ \E n \in Numbers : Part(n \o "W", NumOf(T(n)) * 604800, "W")
Days == Where = "P" /\ \E n \in Numbers : Part(n \o "D", NumOf(T(n)) * 86400, "D")
Time == Where \in {"P", "D"} /\ Part("T", 0, "T")
HoursPart == Where = "T" /\ \E n \in Numbers : Part(n \o "H", NumOf(T(n)) * 3600, "H")
MinutesPart == Where \in {"T", "H"} /\ \E n \in Numbers : Part(n \o "M", NumOf(T(n)) * 60, "M")
SecondsPart == Where \in {"T", "M"} /\ \E n \in Numbers : Part(n \o "S", NumOf(T(n)), "S")
(* ISO 8601: a fraction of the seconds *)
Milli(f) == NumOf(T(f)) * (CASE Len(f) = 1 -> 100 [] Len(f) = 2 -> 10 [] OTHER -> 1)
FractionPart == Where \in {"T", "M"} /\ \E n \in Numbers, f \in Fractions :
    /\ said_' = said_ \o T(n \o "." \o f \o "S")
    /\ sum_' = sum_ + NumOf(T(n)) /\ ms_' = Milli(f) /\ at_' = <<"S", at_[2], at_[3] + 1>>
Anything == Wild /\ at_[3] < MaxParts /\ \E x \in {"1", "P", "T", "W", "D", "H", "M", "S", "-", "+", ".", " ", "1M"} : Part(x, 0, "wild")
Next == Weeks \/ Days \/ Time \/ HoursPart \/ MinutesPart \/ SecondsPart \/ FractionPart \/ Anything
Spec == Init /\ [][Next]_vars

Complete == Where \in {"W", "D", "H", "M", "S"}
Value == DurMs(at_[2] = "-", DigitsOf(sum_), ms_)
Accepts == Complete => LET p == ParseDuration(said_) IN p = [st |-> "some", v |-> Value]
RejectsUnfinished == Where \in {"P", "T"} => ParseDuration(said_).st = "none"
(* a text has one meaning however it came about; wild texts that are durations are those of the grammar *)
WildOnes == Where = "wild" /\ ParseDuration(said_).st = "some" =>
    LET body == IF said_[1] \in {DASH, PLUS} THEN Tail(said_) ELSE said_ IN
    /\ body[1] = 80
    /\ \A i \in 2..Len(body) : Digit(body[i]) \/ body[i] \in {68, 72, 77, 83, 84, 87, DOT}
    /\ ~Digit(body[Len(body)]) /\ body[Len(body)] # 84
    /\ \A i \in 2..Len(body) : (~Digit(body[i]) /\ body[i] # 84 => Digit(body[i - 1]))
                               /\ (body[i] = DOT => Digit(body[i + 1]))
(* numbers of any length: the digits of the sum are those of arithmetic in steps *)
LongOnes == Complete => LET n == T("98765432109876543210") p == ParseDuration(said_ \o <<>>).v IN
    /\ TimesDigits(n, 1) = n /\ PlusDigits(n, Zero) = n
    /\ TimesDigits(p.digits, 7) = DigitsOf(sum_ * 7)
    /\ PlusDigits(p.digits, T("999999")) = DigitsOf(sum_ + 999999)
(* what is written reads back *)
Rewritten == Complete => ParseDuration(SpellDur(Value)) = [st |-> "some", v |-> Value]
(* the sign only changes the sign *)
Signed == Complete /\ at_[2] = "" =>
    LET p == ParseDuration(said_).v m == ParseDuration(<<DASH>> \o said_).v q == ParseDuration(<<PLUS>> \o said_).v IN
    q = p /\ m = Negated(p)

Trig(ps) == Emit("trigraw", [k |-> T("TRIGGER"), v |-> said_, p |-> ps])
Emitted == /\ Trig(<<>>)
           /\ (Where # "wild" => /\ Trig(<<<<T("RELATED"), T("END")>>>>) /\ Trig(<<<<T("RELATED"), T("START")>>>>)
                                 /\ Trig(<<<<VALUE, T("DURATION")>>>>) /\ Trig(<<<<VALUE, T("DATE-TIME")>>>>))
=============================================================================
