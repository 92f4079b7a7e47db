----------------------------- MODULE Durations -----------------------------
(***************************************************************************)
(* DURATION values (RFC 5545 3.3.6).  A duration is [neg, digits, ms]:     *)
(* the decimal digits of the whole seconds of its absolute value and the   *)
(* milliseconds beyond them.                                               *)
(*                                                                         *)
(*   dur-value = (["+"] / "-") "P" (dur-date / dur-time / dur-week)        *)
(*   dur-date  = dur-day [dur-time]    dur-time = "T" (hour/minute/second) *)
(*   dur-week  = 1*DIGIT "W"           dur-day  = 1*DIGIT "D"              *)
(*   hour = 1*DIGIT "H" [minute]       minute = 1*DIGIT "M" [second]       *)
(* and, as in ISO 8601, up to three digits behind a dot in the seconds.    *)
(***************************************************************************)
EXTENDS Chars

Zero == <<48>>
DurMs(neg, digits, ms) == [neg |-> neg /\ (digits # Zero \/ ms # 0), digits |-> digits, ms |-> ms]
Dur(neg, digits) == DurMs(neg, digits, 0)

(* split into signs, letters and numbers: <<"P", "15", "D">> ... *)
LOCAL Units == {68, 72, 77, 83, 87} \* D H M S W
LOCAL Tok(t) == \* sequence of <<digits, unit>>, "T" as <<<<>>, 84>>
    FoldLeft(LAMBDA acc, c :
        IF Digit(c) \/ c = DOT THEN [acc EXCEPT !.num = Append(@, c)]
        ELSE [toks |-> Append(acc.toks, <<acc.num, c>>), num |-> <<>>],
        [toks |-> <<>>, num |-> <<>>], t)
(* the order of units after P *)
LOCAL Rank(c) == CASE c = 87 -> 0 [] c = 68 -> 1 [] c = 84 -> 2 [] c = 72 -> 3 [] c = 77 -> 4 [] c = 83 -> 5 [] OTHER -> 9
LOCAL UnitSecs(c) == CASE c = 87 -> 604800 [] c = 68 -> 86400 [] c = 72 -> 3600 [] c = 77 -> 60 [] c = 83 -> 1

(***************************************************************************)
(* Parse: [st |-> "some", v], or "none" if the text is no duration.  "far" *)
(* is a duration with a number of 2^32 or more: reading it gives this      *)
(* value or, so far, an error (see known-findings.txt), never another one. *)
(***************************************************************************)
ParseDuration(t) ==
    LET neg == t # <<>> /\ t[1] = DASH
        body == IF t # <<>> /\ t[1] \in {DASH, PLUS} THEN Tail(t) ELSE t
        lexed == Tok(IF body = <<>> THEN body ELSE Tail(body))
        toks == lexed.toks
        n == Len(toks)
        unit(i) == toks[i][2]
        num(i) == toks[i][1]
        dots(x) == {k \in 1..Len(x) : x[k] = DOT}
        dot(x) == IF dots(x) = {} THEN Len(x) + 1 ELSE CHOOSE k \in dots(x) : TRUE
        whole(x) == SubSeq(x, 1, dot(x) - 1)
        behind(x) == SubSeq(x, dot(x) + 1, Len(x))
        Thousandths(x) == LET b == behind(x) d(k) == IF k > Len(b) THEN 0 ELSE b[k] - 48 IN 100 * d(1) + 10 * d(2) + d(3)
        number(i) == /\ whole(num(i)) # <<>>
                     /\ Cardinality(dots(num(i))) <= (IF unit(i) = 83 THEN 1 ELSE 0)
                     /\ (dots(num(i)) # {} => Len(behind(num(i))) \in 1..3)
        isT(i) == unit(i) = 84
        wellFormed ==
            /\ body # <<>> /\ body[1] = 80 /\ n > 0 /\ lexed.num = <<>>
            /\ \A i \in 1..n : (isT(i) /\ num(i) = <<>>) \/ (unit(i) \in Units /\ number(i))
            /\ \A i \in 1..(n - 1) : Rank(unit(i)) < Rank(unit(i + 1))
            /\ ~isT(n)
            /\ (unit(1) = 87 => n = 1)
            /\ \A i \in 1..n : Rank(unit(i)) > 2 => \E j \in 1..n : isT(j)
            /\ ~\E i, j \in 1..n : unit(i) = 72 /\ unit(j) = 83 /\ ~\E k \in 1..n : unit(k) = 77
        near(i) == isT(i) \/ DigitsLeq(StripZeros(whole(num(i))), T("4294967295"))
        sum == FoldLeft(LAMBDA acc, x : IF x[2] = 84 THEN acc ELSE PlusDigits(acc, TimesDigits(StripZeros(whole(x[1])), UnitSecs(x[2]))), Zero, toks)
    IN IF ~wellFormed THEN [st |-> "none"]
       ELSE [st |-> IF \A i \in 1..n : near(i) THEN "some" ELSE "far", v |-> DurMs(neg, sum, IF unit(n) = 83 THEN Thousandths(num(n)) ELSE 0)]
(* hours with seconds but no minutes is outside of the RFC grammar, but unambiguous *)

(* texts that a lenient reader may take for a duration: nothing is said about them *)
LOCAL LenientChar(c) == Digit(c) \/ c \in {PLUS, DASH, DOT, COMMA, COLON, 80, 84, 87, 68, 72, 77, 83, 89}
LooseDuration(t) == \* consists of what durations of ISO 8601 consist of
    LET body == IF t # <<>> /\ t[1] \in {DASH, PLUS} THEN Tail(t) ELSE t
    IN Len(body) >= 2 /\ body[1] = 80 /\ \A i \in 1..Len(body) : LenientChar(body[i])

(* one way to write it *)
SpellDur(d) == (IF d.neg THEN <<DASH>> ELSE <<>>) \o T("PT") \o d.digits
               \o (IF d.ms = 0 THEN <<>> ELSE <<DOT>> \o Pad(d.ms, 3)) \o T("S")
(* the recorded duration is this one *)
SameDur(v, o) == o.ns = 1000000 * v.ms /\ DurMs(o.neg, o.digits, v.ms) = v
(* the text t is a way to write the duration *)
WritesDur(v, t) == LET p == ParseDuration(t) IN p.st \in {"some", "far"} /\ p.v = v
ArgDur(a) == DurMs(a.neg, a.digits, IF "ms" \in DOMAIN a THEN a.ms ELSE 0)
Negated(d) == DurMs(~d.neg, d.digits, d.ms)
=============================================================================
