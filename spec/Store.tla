-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The API as a state machine: component registers and calendar registers, *)
(* changed by one call at a time.                                          *)
(*   st.regs  register -> component with var ("event", "todo", "venue",    *)
(*            "alarm", "other")                                            *)
(*   st.cals  register -> calendar                                         *)
(* `seen' is what was recorded after the call; it only resolves choices    *)
(* that the API leaves to the implementation (how a duration is spelled,   *)
(* which UID and time stamp were generated).  Nothing is NoneSeen.         *)
(***************************************************************************)
EXTENDS Model

StoreInit == [regs |-> <<>>, cals |-> <<>>]
NoneSeen == [none |-> TRUE]

(* ------------------------------------------------ components *)
SetProp(c, p) == [c EXCEPT !.props = {q \in @ : q.k # p.k} \cup {p}]
AddMulti(c, p) ==
    [c EXCEPT !.multi = IF p.k \in DOMAIN @ THEN [@ EXCEPT ![p.k] = Append(@, p)] ELSE @ @@ (p.k :> <<p>>)]
AddChild(c, child) == [c EXCEPT !.comps = Append(@, NoVar(child))]
New(kind, var) == WithVar(EmptyComp(kind), var)
Emptied(c) == New(c.kind, c.var)

(* parameters given one after the other: the last one of a name counts *)
ArgParams(ps) ==
    {<<ps[i][1], ps[i][2]>> : i \in {i \in 1..Len(ps) : \A j \in (i + 1)..Len(ps) : ps[j][1] # ps[i][1]}}
ArgProp(a) == PropWith(a.k, a.v, ArgParams(a.p))

TextKey(f) ==
    CASE f = "summary" -> T("SUMMARY") [] f = "description" -> T("DESCRIPTION") [] f = "uid" -> UID
      [] f = "url" -> T("URL") [] f = "location" -> T("LOCATION")
      [] f = "street_address" -> T("STREET-ADDRESS") [] f = "extended_address" -> T("EXTENDED-ADDRESS")
      [] f = "locality" -> T("LOCALITY") [] f = "region" -> T("REGION") [] f = "country" -> T("COUNTRY")
      [] f = "postal_code" -> T("POSTAL-CODE")
NumKey(f) == CASE f = "priority" -> T("PRIORITY") [] f = "sequence" -> T("SEQUENCE") [] f = "percent" -> T("PERCENT-COMPLETE")
DateKey(f) ==
    CASE f = "starts" -> T("DTSTART") [] f = "ends" -> T("DTEND") [] f = "due" -> T("DUE")
      [] f = "timestamp" -> DTSTAMP [] f = "last_modified" -> T("LAST-MODIFIED") [] f = "created" -> T("CREATED")
      [] f = "completed" -> T("COMPLETED")
DateProp(key, v) == PropWith(key, ValueText(v), FormParams(v))
Clamp(f, digits) == IF f = "priority" /\ ~DigitsLeq(digits, T("10")) THEN T("10") ELSE digits

(* a duration may be spelled in several ways; PTnS is one *)
Spelled(d, key, seen) ==
    IF "props" \in DOMAIN seen /\ \E p \in seen.props : p.k = key /\ WritesDur(d, p.v)
    THEN (CHOOSE p \in seen.props : p.k = key /\ WritesDur(d, p.v)).v
    ELSE SpellDur(d)
RELATED == T("RELATED")
TRIGGER == T("TRIGGER")
TrigDur(a) == IF "via" \in DOMAIN a /\ a.via \in {"before_start", "before_end"} THEN Negated(ArgDur(a.dur)) ELSE ArgDur(a.dur)
TrigRel(a) == IF "via" \notin DOMAIN a THEN "NONE"
              ELSE CASE a.via \in {"after_start", "before_start", "start"} -> "START"
                     [] a.via \in {"after_end", "before_end", "end"} -> "END"
                     [] OTHER -> "NONE"
TrigProp(a, seen) ==
    IF "dt" \in DOMAIN a
    THEN PropWith(TRIGGER, ValueText(a.dt), FormParams(a.dt) \cup {<<VALUE, T("DATE-TIME")>>})
    ELSE PropWith(TRIGGER, Spelled(TrigDur(a), TRIGGER, seen),
                  IF TrigRel(a) = "NONE" THEN {} ELSE {<<RELATED, T(TrigRel(a))>>})

(* a property made from a value of another type *)
IntoProp(op, seen) ==
    LET last(k) == \* where its spelling is to be seen
            IF "props" \notin DOMAIN seen THEN seen
            ELSE IF op.multi = 0 THEN [props |-> seen.props]
            ELSE [props |-> IF k \in DOMAIN seen.multi THEN {seen.multi[k][Len(seen.multi[k])]} ELSE {}]
    IN CASE op.what = "class" -> Prop(T("CLASS"), T(op.v))
         [] op.what \in {"event_status", "todo_status"} -> Prop(T("STATUS"), T(op.v))
         [] op.what = "duration" -> Prop(T("DURATION"), Spelled(ArgDur(op.dur), T("DURATION"), last(T("DURATION"))))
         [] op.what = "trigger" -> TrigProp(op.trig, last(TRIGGER))

(* ------------------------------------------------ calendars *)
EmptyCal == [props |-> <<>>, comps |-> <<>>]
DefaultProps == <<Prop(T("VERSION"), T("2.0")), Prop(T("PRODID"), T("ICALENDAR-RS")), Prop(T("CALSCALE"), T("GREGORIAN"))>>
DefaultCal == [props |-> DefaultProps, comps |-> <<>>]
CalVar(c) == IF c.var = "alarm" THEN [c EXCEPT !.var = "other"] ELSE c
AddComps(cal, cs) == [cal EXCEPT !.comps = @ \o [i \in 1..Len(cs) |-> CalVar(cs[i])]]
AddProps(cal, ps) == [cal EXCEPT !.props = @ \o ps]
(* setting replaces the first property of that name, the one that counts *)
SetCalProp(cal, p) ==
    LET i == First(cal.props, LAMBDA q : q.k = p.k) IN
    IF i = 0 THEN AddProps(cal, <<p>>) ELSE [cal EXCEPT !.props[i] = p]
(* the lists of a calendar are public; any number says where *)
Which(i, n) == ((i - 1) % n) + 1
DropAt(s, i) == IF s = <<>> THEN s ELSE LET j == Which(i, Len(s)) IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
PutAt(s, i, x) == LET j == Which(i, Len(s) + 1) IN SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
EditAt(s, i, p) == IF s = <<>> THEN s ELSE [s EXCEPT ![Which(i, Len(s))] = SetProp(@, p)]
CalKeys(f) ==
    CASE f = "name" -> <<T("NAME"), T("X-WR-CALNAME")>>
      [] f = "description" -> <<T("DESCRIPTION"), T("X-WR-CALDESC")>>
      [] f = "timezone" -> <<T("TIMEZONE-ID"), T("X-WR-TIMEZONE")>>
      [] f = "ttl" -> <<T("REFRESH-INTERVAL"), T("X-PUBLISHED-TTL")>>
CalSpelled(d, seen, i) ==
    LET n == IF "props" \in DOMAIN seen THEN First(seen.props, LAMBDA q : q.k = CalKeys("ttl")[i]) ELSE 0 IN
    IF n # 0 /\ WritesDur(d, seen.props[n].v) THEN seen.props[n].v
    ELSE SpellDur(d)

(* ------------------------------------------------ one call *)
Put(f, x, v) == [i \in (DOMAIN f) \cup {x} |-> IF i = x THEN v ELSE f[i]]
OnReg(st, op, c) == [st EXCEPT !.regs = Put(@, op.r, c)]
OnCal(st, op, c) == [st EXCEPT !.cals = Put(@, op.c, c)]
Regs(st, rs) == [i \in 1..Len(rs) |-> st.regs[rs[i]]]

Apply(st, op, seen) ==
    CASE op.op = "new" ->
           OnReg(st, op,
             CASE op.kind = "event" -> New(VEVENT, "event")
               [] op.kind = "todo" -> New(VTODO, "todo")
               [] op.kind = "venue" -> New(VVENUE, "venue")
               [] op.kind = "audio" ->
                    SetProp(SetProp(New(VALARM, "alarm"), Prop(T("ACTION"), T("AUDIO"))), TrigProp(op.trig, seen))
               [] op.kind = "display" ->
                    SetProp(SetProp(SetProp(New(VALARM, "alarm"), Prop(T("ACTION"), T("DISPLAY"))), TrigProp(op.trig, seen)),
                            Prop(T("DESCRIPTION"), op.desc))
               [] OTHER -> New(op.name, VarOf(op.name)))
      [] op.op = "append" -> OnReg(st, op, SetProp(st.regs[op.r], ArgProp(op.p)))
      [] op.op = "multi" -> OnReg(st, op, AddMulti(st.regs[op.r], ArgProp(op.p)))
      [] op.op = "into" ->
           OnReg(st, op, IF op.multi = 1 THEN AddMulti(st.regs[op.r], IntoProp(op, seen)) ELSE SetProp(st.regs[op.r], IntoProp(op, seen)))
      [] op.op = "child" -> OnReg(st, op, AddChild(st.regs[op.r], st.regs[op.from]))
      [] op.op = "text" -> OnReg(st, op, SetProp(st.regs[op.r], Prop(TextKey(op.f), op.v)))
      [] op.op = "venue" -> OnReg(st, op, SetProp(st.regs[op.r], PropWith(T("LOCATION"), op.v, {<<T("VVENUE"), op.uid>>})))
      [] op.op = "num" -> OnReg(st, op, SetProp(st.regs[op.r], Prop(NumKey(op.f), Clamp(op.f, op.v))))
      [] op.op = "class" -> OnReg(st, op, SetProp(st.regs[op.r], Prop(T("CLASS"), T(op.v))))
      [] op.op = "status" -> OnReg(st, op, SetProp(st.regs[op.r], Prop(T("STATUS"), T(op.v))))
      [] op.op \in {"date", "stamp"} -> OnReg(st, op, SetProp(st.regs[op.r], DateProp(DateKey(op.f), op.v)))
      [] op.op = "allday" ->
           OnReg(st, op, SetProp(SetProp(st.regs[op.r], DateProp(T("DTSTART"), op.v)), DateProp(T("DTEND"), op.v)))
      [] op.op = "durrep" ->
           OnReg(st, op, SetProp(SetProp(st.regs[op.r], Prop(T("DURATION"), Spelled(ArgDur(op.dur), T("DURATION"), seen))),
                                 Prop(T("REPEAT"), op.n)))
      [] op.op = "done" -> [st EXCEPT !.regs = Put(Put(@, op.to, @[op.r]), op.r, Emptied(@[op.r]))]
      [] op.op = "clone" -> [st EXCEPT !.regs = Put(@, op.to, @[op.r])]
      [] op.op \in {"get", "ser", "cget", "cwrite"} -> st
      [] op.op = "cnew" -> OnCal(st, op, IF op.via = "empty" THEN EmptyCal ELSE DefaultCal)
      [] op.op = "cfrom" -> OnCal(st, op, AddComps(DefaultCal, Regs(st, op.rs)))
      [] op.op = "push" -> OnCal(st, op, AddComps(st.cals[op.c], <<st.regs[op.r]>>))
      [] op.op = "extend" -> OnCal(st, op, AddComps(st.cals[op.c], Regs(st, op.rs)))
      [] op.op = "cappend" ->
           [st EXCEPT !.cals = Put(Put(@, op.c, AddComps(@[op.c], @[op.from].comps)), op.from, [@[op.from] EXCEPT !.comps = <<>>])]
      [] op.op = "cprop" -> OnCal(st, op, AddProps(st.cals[op.c], <<ArgProp(op.p)>>))
      [] op.op = "cdrop" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.comps = DropAt(@, op.i)])
      [] op.op = "cput" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.comps = PutAt(@, op.i, CalVar(st.regs[op.r]))])
      [] op.op = "cedit" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.comps = EditAt(@, op.i, ArgProp(op.p))])
      [] op.op = "crev" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.comps = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]])
      [] op.op = "pdrop" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.props = DropAt(@, op.i)])
      [] op.op = "pput" -> OnCal(st, op, [st.cals[op.c] EXCEPT !.props = PutAt(@, op.i, ArgProp(op.p))])
      [] op.op = "cset" ->
           OnCal(st, op, SetCalProp(SetCalProp(st.cals[op.c], Prop(CalKeys(op.f)[1], op.v)), Prop(CalKeys(op.f)[2], op.v)))
      [] op.op = "ttl" ->
           OnCal(st, op, SetCalProp(SetCalProp(st.cals[op.c],
               PropWith(CalKeys("ttl")[1], CalSpelled(ArgDur(op.dur), seen, 1), {<<VALUE, T("DURATION")>>})),
               Prop(CalKeys("ttl")[2], CalSpelled(ArgDur(op.dur), seen, 2))))
      [] op.op = "cdone" -> [st EXCEPT !.cals = Put(Put(@, op.to, @[op.c]), op.c, EmptyCal)]
      [] op.op = "creread" -> st \* the outcome is judged by ComesBack
      [] op.op = "take" -> [st EXCEPT !.regs = Put(@, op.to, st.cals[op.c].comps[op.i])]

(* ------------------------------------------------ what the getters return *)
PropVal(c, k) == IF HasProp(c, k) THEN Some(TheProp(c, k).v) ELSE None
FirstVal(cal, k) ==
    LET i == First(cal.props, LAMBDA p : p.k = k) IN IF i = 0 THEN None ELSE Some(cal.props[i].v)
OneOf(o, names) == IF o.st = "some" /\ \E n \in names : o.v = T(n) THEN o ELSE None
(* a number as text: decimal digits up to max, a plus sign is allowed *)
Number(t, max) ==
    LET d == IF t # <<>> /\ t[1] = PLUS THEN Tail(t) ELSE t IN
    IF d = <<>> THEN None
    ELSE IF AllDigits(d) THEN IF DigitsLeq(StripZeros(d), T(max)) THEN Some(StripZeros(d)) ELSE None
    ELSE IF t[1] = DASH /\ \A i \in 2..Len(t) : t[i] = 48 THEN Loose
    ELSE None
NumberOf(o, max) == IF o.st = "some" THEN Number(o.v, max) ELSE None
TzOf(p) == IF \E x \in p.p : x[1] = TZID THEN <<(CHOOSE x \in p.p : x[1] = TZID)[2]>> ELSE <<>>
DateGet(c, k) ==
    IF ~HasProp(c, k) THEN None
    ELSE LET p == TheProp(c, k) IN MeansDate(TypeOf(p.k, WireParams(p)), TzOf(p), p.v)
UtcGet(c, k) == IF HasProp(c, k) THEN MeansUtc(TheProp(c, k).v) ELSE None

ParamOf(p, k) == IF \E x \in p.p : x[1] = k THEN Some((CHOOSE x \in p.p : x[1] = k)[2]) ELSE None
(* a trigger is [dur] or [dt], with rel; "loose" if nothing is said about the text *)
MeansTrigger(p) ==
    LET val == ParamOf(p, VALUE)
        rel == ParamOf(p, RELATED)
        d == ParseDuration(p.v)
    IN IF p.k # TRIGGER THEN None
       ELSE IF val.st = "some" /\ val.v = T("DATE-TIME")
       THEN LET m == MeansDate("DATE-TIME", TzOf(p), p.v) IN
            IF m.st = "some" THEN Some([dt |-> m.v, rel |-> "NONE"]) ELSE m
       ELSE IF val.st = "none" \/ val.v = T("DURATION")
       THEN IF d.st = "some"
            THEN IF rel.st = "none" THEN Some([dur |-> d.v, rel |-> "NONE"])
                 ELSE IF rel.v = T("START") THEN Some([dur |-> d.v, rel |-> "START"])
                 ELSE IF rel.v = T("END") THEN Some([dur |-> d.v, rel |-> "END"])
                 ELSE Loose
            ELSE IF d.st = "far" THEN [st |-> "far", v |-> d.v]
            ELSE IF LooseDuration(p.v) THEN Loose ELSE None
       ELSE None
IsTrigger(tr, o) == \* the recorded trigger is this one
    IF "dt" \in DOMAIN tr
    THEN o.dur.st = "none" /\ o.dt.st = "some" /\ SameMoment(tr.dt, o.dt.v) /\ o.rel = "NONE"
    ELSE o.dt.st = "none" /\ o.dur.st = "some" /\ SameDur(tr.dur, o.dur.v) /\ o.rel = tr.rel
SaysTrigger(e, o) ==
    CASE e.st = "loose" -> o.st \in {"ok", "err"}
      [] e.st = "none" -> o.st = "err"
      [] e.st = "far" -> o.st = "err" \/ (o.st = "ok" /\ o.v.dur.st = "some" /\ SameDur(e.v, o.v.dur.v))
      [] e.st = "some" -> o.st = "ok" /\ IsTrigger(e.v, o.v)
(* what is left of a trigger that was written *)
WrittenTrigger(tr) == IF "dt" \in DOMAIN tr THEN [tr EXCEPT !.dt = Obs(@)] ELSE tr
ArgTrigger(a) == IF "dt" \in DOMAIN a THEN [dt |-> a.dt, rel |-> "NONE"] ELSE [dur |-> TrigDur(a), rel |-> TrigRel(a)]

PlainSays(e, o) == e.st = "loose" \/ o = e
EventStatuses == {"TENTATIVE", "CONFIRMED", "CANCELLED"}
TodoStatuses == {"NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"}
Classes == {"PUBLIC", "PRIVATE", "CONFIDENTIAL"}
TextGetters == {"summary", "description", "uid", "url", "location", "street_address", "extended_address", "locality",
                "region", "country", "postal_code"}
TypedGetters == {"class", "status", "priority", "sequence", "percent"}
DateGetters == {"start", "end", "due", "timestamp", "created", "last_modified", "completed"}
GetterSays(c, name, o) ==
    CASE name \in TextGetters -> o = PropVal(c, TextKey(name))
      [] name = "class" -> o = OneOf(PropVal(c, T("CLASS")), Classes)
      [] name = "status" -> o = OneOf(PropVal(c, T("STATUS")), IF c.var = "event" THEN EventStatuses ELSE TodoStatuses)
      [] name = "priority" -> PlainSays(NumberOf(PropVal(c, T("PRIORITY")), "10"), o)
      [] name = "sequence" -> PlainSays(NumberOf(PropVal(c, T("SEQUENCE")), "4294967295"), o)
      [] name = "percent" -> PlainSays(NumberOf(PropVal(c, T("PERCENT-COMPLETE")), "255"), o)
      [] name = "start" -> Says(DateGet(c, T("DTSTART")), o)
      [] name = "end" -> Says(DateGet(c, T("DTEND")), o)
      [] name = "due" -> Says(DateGet(c, T("DUE")), o)
      [] name = "timestamp" -> Says(UtcGet(c, DTSTAMP), o)
      [] name = "created" -> Says(UtcGet(c, T("CREATED")), o)
      [] name = "last_modified" -> Says(UtcGet(c, T("LAST-MODIFIED")), o)
      [] name = "completed" -> Says(UtcGet(c, T("COMPLETED")), o)
      [] name = "trigger" -> IF HasProp(c, TRIGGER) THEN SaysTrigger(MeansTrigger(TheProp(c, TRIGGER)), o) ELSE o.st = "none"

CalText(cal, f) == LET a == FirstVal(cal, CalKeys(f)[1]) IN IF a.st = "some" THEN a ELSE FirstVal(cal, CalKeys(f)[2])
(* an unsigned duration; signed ones are no times to live *)
LOCAL TtlOf(o) ==
    IF o.st = "none" THEN None
    ELSE LET p == ParseDuration(o.v) IN
         IF p.st = "some" THEN IF o.v[1] \in {DASH, PLUS} THEN Loose ELSE Some(p.v)
         ELSE IF p.st = "far" THEN [st |-> "far", v |-> p.v, other |-> None]
         ELSE IF LooseDuration(o.v) THEN Loose ELSE None
CalTtl(cal) ==
    LET a == TtlOf(FirstVal(cal, CalKeys("ttl")[1])) b == TtlOf(FirstVal(cal, CalKeys("ttl")[2])) IN
    CASE a.st = "none" -> b [] a.st = "far" -> [a EXCEPT !.other = b] [] OTHER -> a
RECURSIVE TtlSays(_, _)
TtlSays(e, o) ==
    CASE e.st = "loose" -> TRUE
      [] e.st = "none" -> o.st = "none"
      [] e.st = "far" -> (o.st = "some" /\ SameDur(e.v, o.v)) \/ TtlSays(e.other, o)
      [] OTHER -> o.st = "some" /\ SameDur(e.v, o.v)
=============================================================================
