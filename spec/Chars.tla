------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points.  ASCII literals of the       *)
(* specification are written as TLA+ strings and turned into text by T.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == <<>> @@ [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                    31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
T(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Name(t) == \* the TLA+ string of an ASCII text, for messages only
    FoldLeft(LAMBDA acc, c : acc \o (IF c \in 32..126 THEN SubSeq(Printable, c - 31, c - 31) ELSE "?"), "", t)

TAB == 9   LF == 10   CR == 13   SP == 32   DQ == 34
PLUS == 43 COMMA == 44 DASH == 45 DOT == 46 SLASH == 47
COLON == 58 SEMI == 59 EQS == 61 BSL == 92 UND == 95
LowerN == 110  UpperN == 78
CRLF == <<CR, LF>>

Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Blank(c) == c = SP \/ c = TAB
UpperCase(c) == IF c \in 97..122 THEN c - 32 ELSE c
UpperText(t) == [i \in 1..Len(t) |-> UpperCase(t[i])]

(* RFC 3629 width *)
Octets(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

(***************************************************************************)
(* What may stand in names.  "unknown" is where the specification makes no *)
(* statement about whether the character is alphabetic.                    *)
(***************************************************************************)
KeyClass(c) ==
    IF c < 128
    THEN IF Digit(c) \/ Upper(c) \/ Lower(c) \/ c \in {DOT, COMMA, SLASH, UND, DASH} THEN "yes" ELSE "no"
    ELSE IF (c \in 192..255 /\ c # 215 /\ c # 247) \/ c \in 19968..40959 THEN "yes"
    ELSE IF c \in {160, 167, 215, 247, 8195, 8232, 8364, 12288, 65279} \/ c \in 128512..128591 THEN "no"
    ELSE "unknown"
KeyChar(c) == KeyClass(c) = "yes"
(* the names that may be written: letters, digits and dashes *)
PlainName(t) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i]) \/ Upper(t[i]) \/ Lower(t[i]) \/ t[i] = DASH

First(seq, P(_)) == \* index of the first element for which P holds, or 0
    LET f == FoldLeft(LAMBDA acc, x : IF acc[1] THEN acc ELSE <<P(x), acc[2] + 1>>, <<FALSE, 0>>, seq)
    IN IF f[1] THEN f[2] ELSE 0
Has(seq, c) == \E i \in 1..Len(seq) : seq[i] = c
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Indices(seq) == [i \in 1..Len(seq) |-> i]
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Concat(seqs) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, seqs)

(* numbers *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
Pad(n, w) == LET d == DigitsOf(n) IN [i \in 1..(IF Len(d) < w THEN w - Len(d) ELSE 0) |-> 48] \o d
NumOf(t) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, t) \* at most 9 digits
AllDigits(t) == \A i \in 1..Len(t) : Digit(t[i])
StripZeros(t) == \* canonical decimal digits
    LET i == First(t, LAMBDA c : c # 48) IN IF i = 0 THEN <<48>> ELSE SubSeq(t, i, Len(t))
(* arithmetic on decimal digits of any length *)
TimesDigits(d, k) == \* for k below 2^27
    LET step(acc, i) == LET x == (d[i] - 48) * k + acc[2] IN <<<<48 + (x % 10)>> \o acc[1], x \div 10>>
        r == FoldLeft(step, <<<<>>, 0>>, [i \in 1..Len(d) |-> Len(d) + 1 - i])
    IN StripZeros(DigitsOf(r[2]) \o r[1])
PlusDigits(a, b) ==
    LET n == 1 + IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        at(d, i) == IF i > Len(d) THEN 0 ELSE d[Len(d) + 1 - i] - 48 \* i-th digit from the right
        r == FoldLeft(LAMBDA acc, i : LET x == at(a, i) + at(b, i) + acc[2] IN <<<<48 + (x % 10)>> \o acc[1], x \div 10>>,
                      <<<<>>, 0>>, [i \in 1..n |-> i])
    IN StripZeros(r[1])
DigitsLeq(a, b) == \* canonical decimal digits compared as numbers
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
=============================================================================
