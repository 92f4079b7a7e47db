------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* The API driven by a user who makes any of the calls of a menu, in any   *)
(* order.  The store is the state machine of Store; what is checked    *)
(* here is that it does what its users rely on.                            *)
(***************************************************************************)
EXTENDS Store, Emit

CONSTANTS Menu, Depth

VARIABLES mem_, \* the store
          made_ \* the calls so far
vars == <<mem_, made_>>

(* ------------------------------------------------ the menus *)
P1(k, v) == [k |-> T(k), v |-> T(v), p |-> <<>>]
P2(k, v, pk, pv) == [k |-> T(k), v |-> T(v), p |-> <<<<T(pk), T(pv)>>>>]
Day == [f |-> "date", y |-> 2024, m |-> 2, d |-> 29]
Clock(f) == [f |-> f, y |-> 1999, m |-> 12, d |-> 31, H |-> 23, M |-> 59, S |-> 59]
ZonedClock == Zoned(Clock("zoned"), T("Europe/Berlin"))
Secs(neg, s) == [neg |-> neg, digits |-> T(s)]
Millis(neg, s, ms) == [neg |-> neg, digits |-> T(s), ms |-> ms]

MapMenu == \* property map, multi-map and child list
    {[op |-> "append", r |-> 1, p |-> P1("X-A", "1"), via |-> "append"],
     [op |-> "append", r |-> 1, p |-> P2("X-A", "2", "P", "q"), via |-> "append"],
     [op |-> "append", r |-> 1, p |-> P1("SUMMARY", "s"), via |-> "add"],
     [op |-> "append", r |-> 1, p |-> P1("X-A", ""), via |-> "pre"],
     [op |-> "multi", r |-> 1, p |-> P1("X-A", "m"), via |-> "append"],
     [op |-> "multi", r |-> 1, p |-> P2("COMMENT", "c", "P", "r"), via |-> "append"],
     [op |-> "multi", r |-> 1, p |-> P1("COMMENT", "d"), via |-> "add"],
     [op |-> "text", r |-> 1, f |-> "summary", v |-> T("t")],
     [op |-> "text", r |-> 2, f |-> "summary", v |-> T("u")],
     [op |-> "child", r |-> 1, from |-> 2],
     [op |-> "child", r |-> 2, from |-> 1],
     [op |-> "done", r |-> 1, to |-> 2],
     [op |-> "clone", r |-> 1, to |-> 2]}
TypedMenu == \* setters that go to a property of their own
    {[op |-> "num", r |-> 1, f |-> "priority", v |-> T("10")],
     [op |-> "num", r |-> 1, f |-> "priority", v |-> T("11")],
     [op |-> "num", r |-> 1, f |-> "sequence", v |-> T("4294967295")],
     [op |-> "num", r |-> 2, f |-> "percent", v |-> T("255")],
     [op |-> "class", r |-> 1, v |-> "PRIVATE"],
     [op |-> "status", r |-> 1, v |-> "CANCELLED"],
     [op |-> "status", r |-> 2, v |-> "IN-PROCESS"],
     [op |-> "append", r |-> 1, p |-> P1("STATUS", "NEEDS-ACTION"), via |-> "append"],
     [op |-> "append", r |-> 1, p |-> P1("PRIORITY", "300"), via |-> "append"],
     [op |-> "append", r |-> 2, p |-> P1("CLASS", "SECRET"), via |-> "append"],
     [op |-> "venue", r |-> 1, v |-> T("hall"), uid |-> T("v1")],
     [op |-> "text", r |-> 1, f |-> "location", v |-> T("room")],
     [op |-> "text", r |-> 1, f |-> "uid", v |-> T("id")],
     [op |-> "text", r |-> 2, f |-> "description", v |-> T("a;b")],
     [op |-> "text", r |-> 2, f |-> "url", v |-> T("a;b")]}
DateMenu ==
    {[op |-> "date", r |-> 1, f |-> "starts", v |-> Day, via |-> "direct"],
     [op |-> "date", r |-> 1, f |-> "starts", v |-> ZonedClock, via |-> "perhaps"],
     [op |-> "date", r |-> 1, f |-> "ends", v |-> Clock("utc"), via |-> "direct"],
     [op |-> "date", r |-> 1, f |-> "ends", v |-> Clock("floating"), via |-> "perhaps"],
     [op |-> "date", r |-> 2, f |-> "due", v |-> ZonedClock, via |-> "direct"],
     [op |-> "allday", r |-> 1, v |-> Day],
     [op |-> "stamp", r |-> 1, f |-> "timestamp", v |-> Clock("utc")],
     [op |-> "stamp", r |-> 1, f |-> "created", v |-> Clock("utc")],
     [op |-> "stamp", r |-> 1, f |-> "last_modified", v |-> Clock("utc")],
     [op |-> "stamp", r |-> 2, f |-> "completed", v |-> Clock("utc")],
     [op |-> "append", r |-> 1, p |-> P1("DTSTART", "20240229"), via |-> "append"],
     [op |-> "append", r |-> 1, p |-> P2("DTEND", "20230229", "VALUE", "DATE"), via |-> "append"],
     [op |-> "append", r |-> 2, p |-> P2("DUE", "20240229T000000Z", "TZID", "UTC"), via |-> "append"]}
AlarmMenu ==
    {[op |-> "new", r |-> 3, kind |-> "audio", trig |-> [dur |-> Secs(FALSE, "900"), via |-> "before_start"]],
     [op |-> "new", r |-> 3, kind |-> "display", desc |-> T("d,e"), trig |-> [dur |-> Millis(TRUE, "60", 500), via |-> "after_end"]],
     [op |-> "new", r |-> 3, kind |-> "audio", trig |-> [dt |-> ZonedClock]],
     [op |-> "new", r |-> 3, kind |-> "display", desc |-> T(""), trig |-> [dur |-> Secs(FALSE, "0")]],
     [op |-> "durrep", r |-> 3, dur |-> Secs(FALSE, "300"), n |-> T("4")],
     [op |-> "durrep", r |-> 3, dur |-> Millis(TRUE, "86400", 5), n |-> T("0")],
     [op |-> "append", r |-> 3, p |-> P2("TRIGGER", "-P1W", "RELATED", "END"), via |-> "append"],
     [op |-> "append", r |-> 3, p |-> P2("TRIGGER", "19991231T235959Z", "VALUE", "DATE-TIME"), via |-> "append"],
     [op |-> "text", r |-> 3, f |-> "description", v |-> T("f")],
     [op |-> "child", r |-> 1, from |-> 3, via |-> "alarm"],
     [op |-> "done", r |-> 3, to |-> 4]}
CalMenu ==
    {[op |-> "push", c |-> 1, r |-> 1, via |-> "push"],
     [op |-> "push", c |-> 2, r |-> 2, via |-> "add"],
     [op |-> "push", c |-> 1, r |-> 4, via |-> "push"],
     [op |-> "extend", c |-> 1, rs |-> <<2, 1>>, via |-> "items"],
     [op |-> "extend", c |-> 2, rs |-> <<1, 1>>, via |-> "events"],
     [op |-> "extend", c |-> 2, rs |-> <<>>, via |-> "items"],
     [op |-> "cappend", c |-> 1, from |-> 2],
     [op |-> "cappend", c |-> 2, from |-> 1],
     [op |-> "cprop", c |-> 1, p |-> P1("X-A", "1")],
     [op |-> "cprop", c |-> 1, p |-> P2("X-A", "2", "P", "q")],
     [op |-> "cdrop", c |-> 1, i |-> 1],
     [op |-> "cput", c |-> 1, i |-> 2, r |-> 3],
     [op |-> "cedit", c |-> 1, i |-> 2, p |-> P1("SUMMARY", "e")],
     [op |-> "crev", c |-> 1],
     [op |-> "cdone", c |-> 1, to |-> 2],
     [op |-> "cnew", c |-> 2, via |-> "default"],
     [op |-> "cnew", c |-> 2, via |-> "new"],
     [op |-> "cfrom", c |-> 2, via |-> "collect", rs |-> <<1, 2>>],
     [op |-> "cfrom", c |-> 1, via |-> "one", rs |-> <<3>>]}
MetaMenu ==
    {[op |-> "cset", c |-> 1, f |-> "name", v |-> T("n,m")],
     [op |-> "cset", c |-> 1, f |-> "name", v |-> T("")],
     [op |-> "cset", c |-> 1, f |-> "description", v |-> T("d;e")],
     [op |-> "cset", c |-> 1, f |-> "timezone", v |-> T("Europe/Berlin")],
     [op |-> "ttl", c |-> 1, dur |-> Secs(FALSE, "3600")],
     [op |-> "pdrop", c |-> 1, i |-> 1],
     [op |-> "pput", c |-> 1, i |-> 1, p |-> P1("NAME", "first")],
     [op |-> "ttl", c |-> 1, dur |-> Millis(FALSE, "0", 250)],
     [op |-> "cprop", c |-> 1, p |-> P1("X-WR-CALNAME", "w")],
     [op |-> "cprop", c |-> 1, p |-> P1("NAME", "n")],
     [op |-> "cprop", c |-> 1, p |-> P1("X-WR-CALDESC", "w")],
     [op |-> "cprop", c |-> 1, p |-> P1("X-WR-TIMEZONE", "UTC")],
     [op |-> "cprop", c |-> 1, p |-> P1("TIMEZONE-ID", "Asia/Tokyo")],
     [op |-> "cprop", c |-> 1, p |-> P1("X-PUBLISHED-TTL", "P1W")],
     [op |-> "cprop", c |-> 1, p |-> P1("REFRESH-INTERVAL", "never")],
     [op |-> "cprop", c |-> 1, p |-> P2("REFRESH-INTERVAL", "PT1H30M", "VALUE", "DURATION")]}
Menus == CASE Menu = "map" -> <<MapMenu>> [] Menu = "typed" -> <<TypedMenu>> [] Menu = "date" -> <<DateMenu>>
           [] Menu = "alarm" -> <<AlarmMenu>> [] Menu = "cal" -> <<CalMenu>> [] Menu = "meta" -> <<MetaMenu>>
           [] Menu = "all" -> <<MapMenu, TypedMenu, DateMenu, AlarmMenu, CalMenu, MetaMenu>>
Opening ==
    <<[op |-> "new", r |-> 1, kind |-> "event"], [op |-> "new", r |-> 2, kind |-> "todo"],
      [op |-> "new", r |-> 3, kind |-> "display", desc |-> T("hi"), trig |-> [dur |-> Secs(FALSE, "60")]],
      [op |-> "new", r |-> 4, kind |-> "venue"]>>
    \o (IF Menu \in {"cal", "meta", "all"}
        THEN <<[op |-> "cnew", c |-> 1, via |-> "empty"], [op |-> "cnew", c |-> 2, via |-> "new"]>> ELSE <<>>)

Run(st, ops) == FoldLeft(LAMBDA s, op : Apply(s, op, NoneSeen), st, ops)
Init == mem_ = Run(StoreInit, Opening) /\ made_ = <<>>
(* the kinds of the registers decide which calls there are *)
Kind(i) == mem_.regs[i].var
(* long programs must not double what they hold again and again *)
RECURSIVE Size(_)
Size(c) == 1 + FoldLeft(LAMBDA n, x : n + Size(x), 0, c.comps)
CalSize(c) == FoldLeft(LAMBDA n, x : n + Size(x), 0, mem_.cals[c].comps)
Bearable(op) ==
    CASE op.op = "child" -> Size(mem_.regs[op.r]) + Size(mem_.regs[op.from]) <= 12
      [] op.op = "push" -> CalSize(op.c) + Size(mem_.regs[op.r]) <= 40
      [] op.op = "extend" -> CalSize(op.c) + FoldLeft(LAMBDA n, r : n + Size(mem_.regs[r]), 0, op.rs) <= 40
      [] op.op = "cappend" -> CalSize(op.c) + CalSize(op.from) <= 40
      [] OTHER -> TRUE
Possible(op) ==
    CASE op.op = "status" -> (IF op.v \in {"IN-PROCESS"} THEN Kind(op.r) = "todo" ELSE Kind(op.r) \in {"event", "todo"})
      [] op.op = "num" /\ op.f = "percent" -> Kind(op.r) = "todo"
      [] op.op = "date" -> IF op.f = "due" THEN Kind(op.r) = "todo" ELSE Kind(op.r) \in {"event", "todo"}
      [] op.op = "stamp" /\ op.f = "completed" -> Kind(op.r) = "todo"
      [] op.op = "text" /\ op.f = "location" -> Kind(op.r) \in {"event", "todo"}
      [] op.op \in {"venue", "allday"} -> Kind(op.r) \in {"event", "todo"}
      [] op.op = "durrep" -> Kind(op.r) = "alarm"
      [] op.op = "child" /\ "via" \in DOMAIN op -> Kind(op.r) \in {"event", "todo"}
      [] OTHER -> TRUE
Call(op) == /\ Len(made_) < Depth /\ Possible(op) /\ Bearable(op)
            /\ mem_' = Apply(mem_, op, NoneSeen)
            /\ made_' = Append(made_, op)
Next == \E i \in DOMAIN Menus : \E op \in Menus[i] : Call(op)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ what users rely on *)
Made == made_'[Len(made_')]
Fields(op) == \* the properties that a setter sets
    CASE op.op = "append" -> {op.p.k}
      [] op.op = "text" -> {TextKey(op.f)}
      [] op.op = "venue" -> {T("LOCATION")}
      [] op.op = "num" -> {NumKey(op.f)}
      [] op.op = "class" -> {T("CLASS")}
      [] op.op = "status" -> {T("STATUS")}
      [] op.op \in {"date", "stamp"} -> {DateKey(op.f)}
      [] op.op = "allday" -> {T("DTSTART"), T("DTEND")}
      [] op.op = "durrep" -> {T("DURATION"), T("REPEAT")}
      [] OTHER -> {}
IsSetter(op) == Fields(op) # {}
Without(c, ks) == {p \in c.props : p.k \notin ks}

(* nothing but what a call is about changes *)
Frame ==
    /\ \A i \in DOMAIN mem_.regs :
         mem_'.regs[i] = mem_.regs[i]
         \/ ("r" \in DOMAIN Made /\ ~("c" \in DOMAIN Made) /\ Made.r = i) \/ ("to" \in DOMAIN Made /\ Made.op # "cdone" /\ Made.to = i)
    /\ \A i \in DOMAIN mem_.cals :
         mem_'.cals[i] = mem_.cals[i]
         \/ ("c" \in DOMAIN Made /\ Made.c = i) \/ ("from" \in DOMAIN Made /\ "c" \in DOMAIN Made /\ Made.from = i)
         \/ (Made.op = "cdone" /\ Made.to = i)
(* a setter replaces the properties it is about, and only those *)
Sets ==
    IsSetter(Made) =>
        LET old == mem_.regs[Made.r] new == mem_'.regs[Made.r] IN
        /\ Without(new, Fields(Made)) = Without(old, Fields(Made))
        /\ new.multi = old.multi /\ new.comps = old.comps /\ new.kind = old.kind
        /\ \A k \in Fields(Made) : Cardinality({p \in new.props : p.k = k}) = 1
(* and the getters give back what was set *)
GetsBack ==
    LET c == mem_'.regs[Made.r] IN
    CASE Made.op = "append" -> PropVal(c, Made.p.k) = Some(Made.p.v)
      [] Made.op = "text" -> PropVal(c, TextKey(Made.f)) = Some(Made.v)
      [] Made.op = "venue" -> PropVal(c, T("LOCATION")) = Some(Made.v)
      [] Made.op = "num" -> NumberOf(PropVal(c, NumKey(Made.f)), IF Made.f = "priority" THEN "10" ELSE "4294967295")
                               = Some(IF Made.f = "priority" /\ Made.v = T("11") THEN T("10") ELSE Made.v)
      [] Made.op = "class" -> OneOf(PropVal(c, T("CLASS")), Classes) = Some(T(Made.v))
      [] Made.op = "status" -> OneOf(PropVal(c, T("STATUS")), IF c.var = "event" THEN EventStatuses ELSE TodoStatuses) = Some(T(Made.v))
      [] Made.op = "date" -> DateGet(c, DateKey(Made.f)) = Some(Made.v)
      [] Made.op = "allday" -> DateGet(c, T("DTSTART")) = Some(Made.v) /\ DateGet(c, T("DTEND")) = Some(Made.v)
      [] Made.op = "stamp" -> UtcGet(c, DateKey(Made.f)) = Some(Made.v)
      [] Made.op = "durrep" -> ParseDuration(TheProp(c, T("DURATION")).v).v = ArgDur(Made.dur) /\ PropVal(c, T("REPEAT")) = Some(Made.n)
      [] Made.op = "new" /\ "trig" \in DOMAIN Made -> MeansTrigger(TheProp(c, TRIGGER)) = Some(ArgTrigger(Made.trig))
      [] OTHER -> TRUE
Adds ==
    LET old == mem_.regs[Made.r] new == mem_'.regs[Made.r] IN
    CASE Made.op = "multi" ->
           /\ new.props = old.props /\ new.comps = old.comps
           /\ \A k \in DOMAIN new.multi :
                IF k = Made.p.k
                THEN /\ new.multi[k][Len(new.multi[k])] = ArgProp(Made.p)
                     /\ SubSeq(new.multi[k], 1, Len(new.multi[k]) - 1) = (IF k \in DOMAIN old.multi THEN old.multi[k] ELSE <<>>)
                ELSE new.multi[k] = old.multi[k]
           /\ DOMAIN old.multi \subseteq DOMAIN new.multi
      [] Made.op = "child" ->
           /\ new.comps = Append(old.comps, NoVar(mem_.regs[Made.from]))
           /\ new.props = old.props /\ new.multi = old.multi
      [] OTHER -> TRUE
(* finishing hands everything over and leaves nothing *)
Finishes ==
    /\ (Made.op = "done" => mem_'.regs[Made.to] = mem_.regs[Made.r]
                            /\ (Made.to # Made.r => mem_'.regs[Made.r] = New(mem_.regs[Made.r].kind, mem_.regs[Made.r].var)))
    /\ (Made.op = "cdone" => mem_'.cals[Made.to] = mem_.cals[Made.c]
                             /\ (Made.to # Made.c => mem_'.cals[Made.c] = EmptyCal))
    /\ (Made.op = "clone" => mem_'.regs[Made.to] = mem_.regs[Made.r])
(* the public lists of a calendar hold what is put into them, one element at a time *)
InPlaceOps == {"cdrop", "cput", "cedit", "crev", "pdrop", "pput"}
InPlace ==
    Made.op \in InPlaceOps =>
        LET old == mem_.cals[Made.c] new == mem_'.cals[Made.c]
            changed(s, t) == {i \in 1..Len(s) : s[i] # t[i]}
            without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
        IN /\ (Made.op \in {"cdrop", "cput", "cedit", "crev"} => new.props = old.props)
           /\ (Made.op \in {"pdrop", "pput"} => new.comps = old.comps)
           /\ (Made.op = "cdrop" => (IF old.comps = <<>> THEN new = old ELSE \E i \in 1..Len(old.comps) : new.comps = without(old.comps, i)))
           /\ (Made.op = "pdrop" => (IF old.props = <<>> THEN new = old ELSE \E i \in 1..Len(old.props) : new.props = without(old.props, i)))
           /\ (Made.op = "cput" => \E i \in 1..Len(new.comps) : without(new.comps, i) = old.comps /\ new.comps[i] = CalVar(mem_.regs[Made.r]))
           /\ (Made.op = "pput" => \E i \in 1..Len(new.props) : without(new.props, i) = old.props /\ new.props[i] = ArgProp(Made.p))
           /\ (Made.op = "cedit" => Len(new.comps) = Len(old.comps) /\ Cardinality(changed(old.comps, new.comps)) <= 1)
           /\ (Made.op = "crev" => Len(new.comps) = Len(old.comps) /\ \A i \in 1..Len(old.comps) : new.comps[i] = old.comps[Len(old.comps) + 1 - i])
(* calendars only grow at the end, components are moved, not copied *)
CalGrows ==
    "c" \in DOMAIN Made /\ Made.op \notin {"cnew", "cfrom", "cdone"} \cup InPlaceOps =>
        LET old == mem_.cals[Made.c] new == mem_'.cals[Made.c] IN
        /\ SubSeq(new.comps, 1, Len(old.comps)) = old.comps
        /\ (Made.op \notin {"cset", "ttl"} => SubSeq(new.props, 1, Len(old.props)) = old.props)
        /\ (Made.op = "cappend" => /\ new.comps = old.comps \o mem_.cals[Made.from].comps
                                   /\ mem_'.cals[Made.from].comps = <<>>
                                   /\ mem_'.cals[Made.from].props = mem_.cals[Made.from].props)
        /\ (Made.op \in {"push", "extend", "cappend"} => new.props = old.props)
        /\ (Made.op \in {"cprop", "cset", "ttl"} => new.comps = old.comps)
(* what was set last is what counts; nothing but the first properties of the two names changes *)
MetaKept ==
    LET new == mem_'.cals[Made.c] old == mem_.cals[Made.c]
        first(cal, i) == \A j \in 1..(i - 1) : cal.props[j].k # cal.props[i].k
        ours(k) == Made.op \in {"cset", "ttl"} /\ k \in {CalKeys(IF Made.op = "ttl" THEN "ttl" ELSE Made.f)[n] : n \in {1, 2}}
    IN  /\ (Made.op = "cset" => \A n \in {1, 2} : FirstVal(new, CalKeys(Made.f)[n]) = Some(Made.v))
        /\ (Made.op = "cset" => CalText(new, Made.f) = Some(Made.v))
        /\ (Made.op = "ttl" => CalTtl(new) = Some(ArgDur(Made.dur)))
        /\ (Made.op \in {"cset", "ttl"} =>
              /\ Len(new.props) >= Len(old.props)
              /\ \A i \in 1..Len(old.props) : new.props[i] = old.props[i] \/ (ours(old.props[i].k) /\ first(old, i) /\ new.props[i].k = old.props[i].k)
              /\ \A i \in (Len(old.props) + 1)..Len(new.props) : ours(new.props[i].k) /\ first(new, i))
Step == [][/\ Frame /\ Sets /\ Finishes /\ CalGrows /\ InPlace
           /\ ("r" \in DOMAIN Made /\ "c" \notin DOMAIN Made => GetsBack /\ Adds)
           /\ ("c" \in DOMAIN Made => MetaKept)]_vars
WellFormed ==
    /\ \A i \in DOMAIN mem_.regs : LET c == mem_.regs[i] IN
         /\ \A p, q \in c.props : p.k = q.k => p = q
         /\ \A k \in DOMAIN c.multi : c.multi[k] # <<>> /\ \A j \in 1..Len(c.multi[k]) : c.multi[k][j].k = k

(* ------------------------------------------------ programs for the real code *)
Keys == <<T("X-A"), T("SUMMARY"), T("STATUS"), T("DTSTART"), T("COMMENT")>>
CalKeyList == <<T("X-A"), T("VERSION"), T("NAME"), T("X-WR-CALNAME")>>
Unchanged_ == [lf |-> 0, tab |-> 0, width |-> 0, blank |-> 0]
LookAt(r) == [op |-> "get", r |-> r, keys |-> Keys]
LookAtCal(c) == [op |-> "cget", c |-> c, keys |-> CalKeyList]
ReadAgain(c, to) == [op |-> "creread", c |-> c, to |-> to, tr |-> Unchanged_]
Push(r) == [op |-> "push", c |-> 9, r |-> r, via |-> "push"]
Take(i) == [op |-> "take", c |-> 8, i |-> i, to |-> 20 + i]
(* the getters, also of what is read after writing *)
Looks ==
    <<LookAt(1), LookAt(2), LookAt(3)>>
    \o (IF 1 \in DOMAIN mem_.cals
        THEN <<LookAtCal(1), LookAtCal(2), ReadAgain(1, 8), LookAtCal(8)>>
        ELSE <<[op |-> "cnew", c |-> 9, via |-> "new"], Push(1), Push(2), Push(3), ReadAgain(9, 8),
               Take(1), Take(2), Take(3), LookAt(21), LookAt(22), LookAt(23)>>)
(* longer programs contain the shorter ones, and every call is judged *)
Emitted == Len(made_) = Depth => Emit("prog", [ops |-> Opening \o made_ \o Looks])
=============================================================================
