------------------------------- MODULE MCTrip -------------------------------
(***************************************************************************)
(* A calendar is built, written by any writer that follows the rules, sent *)
(* and read.  It comes back, and every damage to the text is noticed.      *)
(***************************************************************************)
EXTENDS Store, Emit

CONSTANTS MaxSteps, \* of building
          Writing   \* TRUE: also write in every order; FALSE: only build

VARIABLES cal_, built_, stage_, frames_, wire_
vars == <<cal_, built_, stage_, frames_, wire_>>

(* ------------------------------------------------ building *)
W(k, v, ps) == PropWith(T(k), v, {<<T(p[1]), T(p[2])>> : p \in ps})
Singles == {W("SUMMARY", T("a,b;c\\d") \o <<LF>> \o T("END:VEVENT"), {}),
            W("SUMMARY", T("\\n") \o <<233, 128512>>, {<<"LANGUAGE", "de;x:y">>}),
            W("UID", T("u"), {}),
            W("DTSTAMP", T("20240101T000000Z"), {}),
            W("URL", T("a\\nb,c"), {}),
            W("X-A", [i \in 1..40 |-> IF i % 7 = 0 THEN 32 ELSE 20013], {<<"P", "">>}),
            W("DTSTART", T("20240229T120000"), {<<"TZID", "Europe/Berlin">>})}
Repeats == {W("COMMENT", T("\\"), {}), W("COMMENT", T("BEGIN:VEVENT"), {<<"P", "q">>}), W("ATTENDEE", T("mailto:a"), {<<"CN", "A:B">>})}
CalProps == {W("NAME", T("n;m"), {}), W("X-A", T("1"), {}), W("X-A", T("2"), {})}
Kinds_ == <<"VEVENT", "VTODO", "VVENUE", "X-K">>
Comp_(i) == New(T(Kinds_[i]), VarOf(T(Kinds_[i])))
Alarm_ == NoVar(SetProp(SetProp(New(VALARM, "other"), W("ACTION", T("AUDIO"), {})), W("TRIGGER", T("-PT15M"), {})))
Holder == NoVar(AddChild(New(T("X-H"), "other"), WithVar(Alarm_, "other")))

N == Len(cal_.comps)
OnLast(c) == [cal_ EXCEPT !.comps[N] = c]
Set(p) == N > 0 /\ cal_' = OnLast(SetProp(cal_.comps[N], p))
AddRepeat(p) == N > 0 /\ cal_' = OnLast(AddMulti(cal_.comps[N], p))
AddComp(i) == cal_' = AddComps(cal_, <<Comp_(i)>>)
Nest(c) == N > 0 /\ cal_' = OnLast([cal_.comps[N] EXCEPT !.comps = Append(@, c)])
AddCalProp(p) == cal_' = AddProps(cal_, <<p>>)
Build == /\ stage_ = "build" /\ built_ < MaxSteps
         /\ \/ \E p \in Singles : Set(p)
            \/ \E p \in Repeats : AddRepeat(p)
            \/ \E i \in DOMAIN Kinds_ : AddComp(i)
            \/ \E c \in {Alarm_, Holder} : Nest(c)
            \/ \E p \in CalProps : AddCalProp(p)
         /\ built_' = built_ + 1 /\ UNCHANGED <<stage_, frames_, wire_>>

(* ------------------------------------------------ writing *)
WriteParam(x) == <<SEMI>> \o x[1] \o <<EQS>> \o (IF MustQuote(x[2]) THEN <<DQ>> \o x[2] \o <<DQ>> ELSE x[2])
EncodeSome(v) == Concat([i \in 1..Len(v) |-> CHOOSE e \in EncodeChar(v[i]) : TRUE])
LineOf(p) == p.k \o Concat([i \in 1..Cardinality(p.p) |-> WriteParam(SetToSeq(p.p)[i])]) \o <<COLON>>
             \o (IF TypeOf(p.k, WireParams(p)) = "TEXT" THEN EncodeSome(p.v) ELSE p.v)
Frame(c, i) == \* generated UIDs are numbered
    LET missing == (IF HasProp(c, DTSTAMP) THEN {} ELSE {Prop(DTSTAMP, T("20250101T000000Z"))})
                   \cup (IF HasProp(c, UID) THEN {} ELSE {Prop(UID, T("generated-") \o DigitsOf(i))})
    IN [kind |-> c.kind, props |-> c.props \cup missing, multi |-> c.multi, comps |-> c.comps]
Top == Head(frames_)
WithTop(f) == <<f>> \o Tail(frames_)
Write == /\ stage_ = "build" /\ Writing /\ N > 0
         /\ stage_' = "write"
         /\ wire_' = <<T("BEGIN:VCALENDAR")>> \o [i \in 1..Len(cal_.props) |-> LineOf(cal_.props[i])]
         /\ frames_' = <<[kind |-> VCALENDAR, props |-> {}, multi |-> <<>>, comps |-> cal_.comps]>>
         /\ UNCHANGED <<cal_, built_>>
WriteSingle == \E p \in Top.props :
    /\ wire_' = Append(wire_, LineOf(p))
    /\ frames_' = WithTop([Top EXCEPT !.props = @ \ {p}])
WriteRepeat == \E k \in DOMAIN Top.multi :
    /\ wire_' = Append(wire_, LineOf(Head(Top.multi[k])))
    /\ frames_' = WithTop([Top EXCEPT !.multi = IF Len(@[k]) > 1 THEN [@ EXCEPT ![k] = Tail(@)]
                                                ELSE [x \in (DOMAIN @) \ {k} |-> @[x]]])
NoLines == Top.props = {} /\ DOMAIN Top.multi = {}
Descend == NoLines /\ Top.comps # <<>>
    /\ wire_' = Append(wire_, T("BEGIN:") \o Head(Top.comps).kind)
    /\ frames_' = <<Frame(Head(Top.comps), Len(wire_)), [Top EXCEPT !.comps = Tail(@)]>> \o Tail(frames_)
Ascend == NoLines /\ Top.comps = <<>>
    /\ wire_' = Append(wire_, T("END:") \o Top.kind)
    /\ frames_' = Tail(frames_)
    /\ stage_' = IF Len(frames_) = 1 THEN "sent" ELSE stage_
WriteStep == /\ stage_ = "write"
             /\ \/ (WriteSingle \/ WriteRepeat \/ Descend) /\ UNCHANGED stage_
                \/ Ascend
             /\ UNCHANGED <<cal_, built_>>
Init == cal_ = DefaultCal /\ built_ = 0 /\ stage_ = "build" /\ frames_ = <<>> /\ wire_ = <<>>
Next == Build \/ Write \/ WriteStep
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ arriving *)
Sent == stage_ = "sent"
(* folded after every 20th character, which is short enough for any character *)
FoldLine(t) == Concat([i \in 1..Len(t) |-> IF i > 1 /\ i % 18 = 1 THEN CRLF \o <<SP, t[i]>> ELSE <<t[i]>>]) \o CRLF
Text_(lines) == Concat([i \in 1..Len(lines) |-> FoldLine(lines[i])])
T0 == T("20250101T000000Z")
RECURSIVE Complete_(_)
Complete_(c) == HasProp(c, UID) /\ HasProp(c, DTSTAMP) /\ \A i \in 1..Len(c.comps) : Complete_(c.comps[i])
CalComplete_(cal) == \A i \in 1..Len(cal.comps) : Complete_(cal.comps[i])
WellWritten == Sent => WrittenCal(cal_, Text_(wire_), T0, T0)
Arrives == Sent =>
    LET r == ReadText(Unfold(Text_(wire_))) back == ToCalendar(RootTree(r.roots), TRUE) IN
    /\ Finished(r) /\ Len(r.roots) = 1
    /\ ComesBack(cal_, back)
    /\ (CalComplete_(cal_) => back = cal_)
    \* and the second time nothing is missing any more
    /\ ComesBack(back, back)
    /\ RoundTripCal(cal_) /\ LegalCal(cal_)
(* the judgement about written texts is sharp: no line may be missing, doubled or changed *)
Drop(i) == RemoveAt(wire_, i)
Double(i) == SubSeq(wire_, 1, i) \o SubSeq(wire_, i, Len(wire_))
Spoil(i) == [wire_ EXCEPT ![i] = Append(@, 120)]
IsGenerated(i) == StartsWith(wire_[i], T("UID:generated"))
Sharp == Sent => \A i \in 1..Len(wire_) :
    /\ ~WrittenCal(cal_, Text_(Drop(i)), T0, T0)
    /\ ~WrittenCal(cal_, Text_(Double(i)), T0, T0)
    /\ (~IsGenerated(i) => ~WrittenCal(cal_, Text_(Spoil(i)), T0, T0))
(* time stamps outside of the time of writing are noticed, too *)
Timely == Sent /\ (\E i \in 1..Len(wire_) : wire_[i] = T("DTSTAMP:20250101T000000Z"))
          => ~WrittenCal(cal_, Text_(wire_), T("20250101T000001Z"), T("20250101T000009Z"))

(* ------------------------------------------------ the same calendar in the real library *)
ArgOf(p) == [k |-> p.k, v |-> p.v, p |-> SetToSeq(p.p)]
SetOps(c, r) ==
    LET s == SetToSeq(c.props) IN
    [i \in 1..Len(s) |-> [op |-> "append", r |-> r, p |-> ArgOf(s[i]), via |-> "append"]]
MultiOps(c, r) == LET ks == SetToSeq(DOMAIN c.multi) IN
    Concat([i \in 1..Len(ks) |-> [j \in 1..Len(c.multi[ks[i]]) |->
        [op |-> "multi", r |-> r, p |-> ArgOf(c.multi[ks[i]][j]), via |-> "append"]]])
NewOp(kind, r) == CASE kind = VEVENT -> [op |-> "new", r |-> r, kind |-> "event"]
                    [] kind = VTODO -> [op |-> "new", r |-> r, kind |-> "todo"]
                    [] kind = VVENUE -> [op |-> "new", r |-> r, kind |-> "venue"]
                    [] OTHER -> [op |-> "new", r |-> r, kind |-> "other", name |-> kind]
RECURSIVE CompOps(_, _)
CompOps(c, r) == <<NewOp(c.kind, r)>> \o SetOps(c, r) \o MultiOps(c, r)
    \o Concat([i \in 1..Len(c.comps) |-> CompOps(c.comps[i], r + 10) \o <<[op |-> "child", r |-> r, from |-> r + 10]>>])
CalOps(cal) ==
    <<[op |-> "cnew", c |-> 1, via |-> "new"]>>
    \o [i \in 1..(Len(cal.props) - 3) |-> [op |-> "cprop", c |-> 1, p |-> ArgOf(cal.props[i + 3])]]
    \o Concat([i \in 1..Len(cal.comps) |-> CompOps(cal.comps[i], i) \o <<[op |-> "push", c |-> 1, r |-> i, via |-> "push"]>>])
Transports == <<[lf |-> 0, tab |-> 0, width |-> 0, blank |-> 0], [lf |-> 1, tab |-> 1, width |-> 7, blank |-> 1],
                [lf |-> 0, tab |-> 0, width |-> 40, blank |-> 0], [lf |-> 1, tab |-> 0, width |-> 0, blank |-> 0]>>
Emitted == stage_ = "build" =>
    Emit("prog", [ops |-> CalOps(cal_)
        \o <<[op |-> "cwrite", c |-> 1],
             [op |-> "creread", c |-> 1, to |-> 2, tr |-> Transports[1 + ((Len(cal_.props) + N + built_) % 4)]],
             [op |-> "creread", c |-> 2, to |-> 3, tr |-> Transports[1]],
             [op |-> "cget", c |-> 3, keys |-> <<T("NAME"), T("X-A")>>]>>])
=============================================================================
