-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Recorded cases against the specification.  Every operator gives the set *)
(* of the statements ("classes") that the recorded behaviour contradicts.  *)
(***************************************************************************)
EXTENDS Store, Zones

CONSTANT Wanted \* the classes to be decided in this run

Chk(cls, test) == IF cls \in Wanted THEN IF test THEN {} ELSE {cls} ELSE {}

Answer(r) == r.st \in {"ok", "err", "some", "none"}
OkIs(r, v) == r.st = "ok" /\ r.v = v
NoTime == T("00000000T000000Z")
EndTime == T("99999999T999999Z")

(* ---------------------------------------------------------------- prop *)
JudgeProp(c, o) ==
    LET P(i) == o.pool[i]
        p == ArgProp(c)
        legal == LegalProp(p)
        wire == P(o.wire)
        unf == Unfold(wire.v)
        lines == Lines(unf)
        l == Lex(lines[1])
        m == Meaning(l)
        wp == WireParams(p)
        one == wire.st = "ok" /\ Len(lines) = 1
        written == wire.st = "ok" /\ one
        ev == SetProp(EmptyComp(VEVENT), p)
    IN Chk("kept", DumpProp(P(o.kept)) = p /\ PropOk(P(o.kept)))
       \cup Chk("ways", /\ \A i \in 1..Len(o.ways) : DumpProp(P(o.ways[i])) = p
                        /\ o.valas = Some(p.v) /\ o.valnone = None
                        /\ o.paramas.st = "ok" /\ Len(o.paramas.v) = Cardinality(p.p) + 1
                        /\ \A i \in 1..Len(o.paramas.v) : o.paramas.v[i][2] = ParamOf(p, o.paramas.v[i][1]))
       \cup Chk("vtype", o.vtype = TypeOf(p.k, wp))
       \cup Chk("total", \A x \in {"wire", "inevent", "incal"} \cup ({"pp", "mp", "rewrite", "reprint", "pp2"} \cap DOMAIN o) : Answer(P(o[x])))
       \cup (IF ~legal THEN {} ELSE
         Chk("fold", wire.st = "ok" /\ WellFolded(wire.v) /\ NoTabFold(wire.v) /\ one)
         \cup Chk("wparams", written /\ ~l.odd /\ l.name = p.k /\ Len(l.params) = Len(wp)
                             /\ \A i \in 1..Len(wp) : \E j \in 1..Len(wp) : ParamOn(wp[i], l.params[j]))
         \cup Chk("wvalue", written /\ ~l.odd /\ ValueOn(TypeOf(p.k, wp), p.v, l.raw))
         \cup Chk("wline", written /\ OnLine(p, l))
         \cup Chk("unf", wire.st = "ok" /\ P(o.unf) = unf)
         \cup Chk("pread", written => (l.odd \/ OkIs(P(o.pp), m)))
         \cup Chk("pround", written => /\ P(o.pp).st = "ok" /\ P(o.pp).v.n = p.k /\ P(o.pp).v.v = p.v
                                       /\ Len(P(o.pp).v.p) = Len(wp) /\ SetOf(P(o.pp).v.p) = SetOf(wp))
         \cup Chk("mround", written => P(o.mp).st = "ok" /\ DumpProp(P(o.mp).v) = p)
         \cup Chk("rewrite", written => P(o.rewrite).st = "ok" /\ WellFolded(P(o.rewrite).v)
                                        /\ OnLine(p, Lex(Lines(Unfold(P(o.rewrite).v))[1])))
         \cup Chk("reprint", written /\ P(o.pp).st = "ok" =>
                     LET q == P(o.reprint) ls == Lines(Unfold(q.v)) IN
                     q.st = "ok" /\ WellFolded(q.v) /\ NoTabFold(q.v) /\ Len(ls) = 1 /\ PLine(P(o.pp).v, Lex(ls[1])))
         \cup Chk("reread", written /\ P(o.pp).st = "ok" => P(o.pp2) = P(o.pp))
         \cup Chk("inevent", P(o.inevent).st = "ok" /\ WrittenComp(ev, P(o.inevent).v, NoTime, EndTime))
         \cup Chk("incal", P(o.incal).st = "ok" /\ WrittenCal([props |-> <<p>>, comps |-> <<>>], P(o.incal).v, NoTime, EndTime)))

(* ---------------------------------------------------------------- line *)
JudgeLine(c, o) ==
    LET P(i) == o.pool[i]
        l == Lex(c.text)
        m == Meaning(l)
        breaks == Has(c.text, LF) \/ (c.text # <<>> /\ c.text[Len(c.text)] = CR)
        odd == l.odd \/ breaks \/ IsTag(c.text, T("BEGIN:")) \/ IsTag(c.text, T("END:"))
        dup == DupParams(m)
        pp == P(o.pp)
    IN Chk("total", \A x \in {"pp", "mp", "inx", "reprint", "pp2", "wire"} : Answer(P(o[x])))
       \cup Chk("ljson", pp.st = "ok" => LET j == P(o.json) IN
                   j.st = "ok" /\ j.v = pp.v /\ j.eq /\ P(o.reprint).st = "ok" /\ j.print = P(o.reprint).v)
       \cup Chk("lagree", /\ (pp.st = "ok") = (P(o.mp).st = "ok")
                          /\ (pp.st = "ok" /\ ~DupParams(pp.v) => DumpProp(P(o.mp).v) = ToProp(pp.v)))
       \cup (IF odd THEN {} ELSE
         Chk("lread", OkIs(pp, m))
         \cup Chk("lparams", pp.st = "ok" /\ pp.v.p = m.p /\ pp.v.n = m.n)
         \cup Chk("lvalue", pp.st = "ok" /\ pp.v.v = m.v)
         \cup Chk("lmodel", dup \/ (P(o.mp).st = "ok" /\ DumpProp(P(o.mp).v) = ToProp(m) /\ PropOk(P(o.mp).v)))
         \cup Chk("linx", OkIs(P(o.inx), <<[n |-> T("X"), props |-> <<m>>, comps |-> <<>>]>>))
         \cup Chk("linsame", pp.st = "ok" /\ OkIs(P(o.inx), <<[n |-> T("X"), props |-> <<pp.v>>, comps |-> <<>>]>>))
         \cup Chk("reprint", pp.st = "ok" => LET q == P(o.reprint) ls == Lines(Unfold(q.v)) IN
                   q.st = "ok" /\ WellFolded(q.v) /\ NoTabFold(q.v) /\ Len(ls) = 1 /\ PLine(pp.v, Lex(ls[1])))
         \cup Chk("reread", pp.st = "ok" => P(o.pp2) = pp)
         \cup Chk("lwire", dup \/ (P(o.mp).st = "ok" => LET q == P(o.wire) ls == Lines(Unfold(q.v)) IN
                   q.st = "ok" /\ WellFolded(q.v) /\ Len(ls) = 1 /\ OnLine(DumpProp(P(o.mp).v), Lex(ls[1])))))

(* --------------------------------------------------------------- param *)
JudgeParam(c, o) ==
    LET l == Lex(T("X") \o c.text \o T(":"))
        claimed == c.text # <<>> /\ c.text[1] = SEMI /\ ~l.odd /\ Len(l.params) = 1 /\ l.raw = <<>> /\ NoBreak(c.text)
        q == Param3(l.params)[1]
    IN Chk("total", Answer(o.p) /\ Answer(o.mp))
       \cup Chk("ljson", o.p.st = "ok" => OkIs(o.json, o.p.v))
       \cup (IF ~claimed THEN {} ELSE
         Chk("param", OkIs(o.p, q)) \cup Chk("mparam", OkIs(o.mp, <<q[1], q[3]>>)))

(* -------------------------------------------------------------- unfold *)
JudgeUnfold(c, o) == Chk("unf", OkIs(o.unf, Unfold(c.text)))

(* ---------------------------------------------------------------- read *)
(* the model of a tree, with or without the known finding *)
ModelOf(tree, d) == DumpCal(d) = ToCalendar(tree, TRUE)
ModelLost(tree, d) == DumpCal(d) = ToCalendar(tree, FALSE)
Lost(nodes) == \E i \in 1..Len(nodes) : NodeLost(nodes[i])
Strange(nodes) == \E i \in 1..Len(nodes) : NodeDups(nodes[i]) \/ NodePlaceholder(nodes[i])
CalStrange(tree) == Strange(AllNodes(tree.comps)) \/ NodeDups(tree)
Prefix(tree) == [n |-> VCALENDAR, props |-> tree.props, comps |-> tree.comps]

JudgeRead(c, o) ==
    LET P(i) == o.pool[i]
        full == "pc" \in DOMAIN o
        U == Unfold(c.text)
        r == IF UniformEol(U) THEN ReadText(U) ELSE [ReaderInit EXCEPT !.st = "odd"]
        rc == P(o.rc)
        rcs == P(o.rcs)
        cal == P(o.cal)
        tree == rc.v
        roots == rcs.v
        results == {"rc", "rcs", "simple", "cal"} \cup (IF full THEN {"calp", "calv", "pc", "cc", "print", "json", "jprint", "jcomps", "w"}
                                                                     \cup ({"rc2", "cal2"} \cap DOMAIN o) ELSE {})
        allOk == \A x \in {"rc", "rcs", "simple", "cal"} : P(o[x]).st = "ok"
        allErr == \A x \in {"rc", "rcs", "simple", "cal"} : P(o[x]).st = "err"
        claimed == Finished(r)
        lostCal == Lost(AllNodes(tree.comps))
        converted(d) == ModelOf(tree, d) \/ (lostCal /\ ModelLost(tree, d))
        pc == P(o.pc)
        cc == P(o.cc)
    IN Chk("total", \A x \in results : Answer(P(o[x])))
       \cup Chk("unf", P(o.unf) = U)
       \cup Chk("ends", rcs.st = "ok" => EnoughEnds(U, rcs.v))
       \cup Chk("tree", claimed => Admissible(r, rcs))
       \cup Chk("cut", ~claimed => Admissible(r, rcs))
       \cup Chk("agree", (allOk \/ allErr) /\ P(o.simple) = rcs)
       \cup Chk("root", rc.st = "ok" /\ rcs.st = "ok" /\ ~MixedRoots(roots) => rc.v = RootTree(roots))
       \cup Chk("convert", rc.st = "ok" /\ ~CalStrange(tree) => cal.st = "ok" /\ converted(cal.v) /\ CalOk(cal.v))
       \cup (IF ~full THEN {} ELSE
         Chk("single", IF Len(r.roots) >= 1 /\ UniformEol(U) THEN OkIs(pc, r.roots[1])
                       ELSE IF r.st = "odd" THEN TRUE ELSE pc.st = "err")
         \cup Chk("single2", (pc.st = "ok") = (cc.st = "ok")
                             /\ (pc.st = "ok" /\ ~Strange(AllNodes(<<pc.v>>)) =>
                                   \/ DumpCalComp(cc.v) = ToCalComp(pc.v, TRUE)
                                   \/ Lost(AllNodes(<<pc.v>>)) /\ DumpCalComp(cc.v) = ToCalComp(pc.v, FALSE)))
         \cup Chk("convert2", rc.st = "ok" => /\ P(o.calp).st = "ok"
                                               /\ (~CalStrange(tree) => converted(P(o.calp).v))
                                               /\ (rcs.st = "ok" /\ ~MixedRoots(roots) /\ ~CalStrange(tree) =>
                                                     P(o.calv).st = "ok" /\ LET d == P(o.calv).v IN
                                                     IF roots # <<>> /\ roots[1].n = VCALENDAR THEN converted(d)
                                                     ELSE converted([d EXCEPT !.props = <<>>])))
         \cup Chk("find", o.find.st = "ok" /\ rcs.st = "ok" /\ roots # <<>> =>
                     \A i \in 1..Len(o.find.v) :
                        LET os == Occurrences(roots[1], o.find.v[i][1]) IN
                        o.find.v[i][2] = IF os = <<>> THEN None ELSE Some(os[1]))
         \cup Chk("print", claimed /\ rc.st = "ok" => P(o.print).st = "ok" /\ PrintsCal(tree, P(o.print).v))
         \cup Chk("reread", claimed /\ rc.st = "ok" => P(o.rc2) = rc)
         \cup Chk("json", /\ (rc.st = "ok" => P(o.json) = rc /\ P(o.jprint) = P(o.print))
                          /\ (rcs.st = "ok" => P(o.jcomps) = rcs /\ o.jeq.st = "ok" /\ o.jeq.v))
         \cup Chk("rewrite", cal.st = "ok" /\ LegalCal(DumpCal(cal.v)) =>
                     P(o.w).st = "ok" /\ WrittenCal(DumpCal(cal.v), P(o.w).v, o.t0, o.t1))
         \cup Chk("rereadcal", cal.st = "ok" /\ LegalCal(DumpCal(cal.v)) /\ RoundTripCal(DumpCal(cal.v)) =>
                     P(o.w).st = "ok" /\ P(o.cal2).st = "ok" /\ ComesBack(DumpCal(cal.v), DumpCal(P(o.cal2).v))))
(* the known finding shows in this case *)
KnownRead(o) == LET rc == o.pool[o.rc] cal == o.pool[o.cal] IN
    /\ rc.st = "ok" /\ cal.st = "ok" /\ Lost(AllNodes(rc.v.comps)) /\ ~CalStrange(rc.v)
    /\ ~ModelOf(rc.v, cal.v) /\ ModelLost(rc.v, cal.v)

(***************************************************************************)
(* Levels of components inside of one another: c.depth times a BEGIN line  *)
(* and c.pre COMMENTs, then c.ends times c.post ATTENDEEs and an END line: *)
(* the reader (Reader.tla) in numbers, and what becomes of its tree when it*)
(* is printed, converted, written and read again.                          *)
(***************************************************************************)
DeepCount(c, k) == IF k \in DOMAIN c THEN c[k] ELSE 0
JudgeDeep(c, o) ==
    LET d == c.depth
        others == d * (DeepCount(c, "pre") + DeepCount(c, "post"))
        read == [roots |-> IF d = 0 THEN 0 ELSE 1, levels |-> d, props |-> others, named |-> TRUE]
        nothing == [roots |-> 0, levels |-> 0, props |-> 0, named |-> TRUE]
        \* the calendar itself is a level of the name VCALENDAR, whether it is there or made by the library
        cal == c.name = VCALENDAR
        e == IF cal /\ d = 0 THEN 1 ELSE d
        text == [begins |-> e, ends |-> e, levels |-> e, others |-> others]
        below == IF cal THEN e - 1 ELSE d
        model == [levels |-> below, props |-> below * (DeepCount(c, "pre") + DeepCount(c, "post"))]
    IN Chk("total", Answer(o) /\ ("all" \in DOMAIN o => Answer(o.all)))
       \cup Chk("ends", IF c.ends = d THEN OkIs(o, read)
                        ELSE o.st = "err" \/ OkIs(o, nothing) \/ (c.ends > d /\ OkIs(o, read)))
       \cup Chk("deepread", c.ends = d => OkIs(o, read))
       \cup (IF "all" \notin DOMAIN o \/ c.ends # d THEN {} ELSE
              Chk("deepall", o.all.st = "ok")
              \cup Chk("deepprint", o.all.st = "ok" => o.all.v.print = text)
              \cup Chk("deepwrite", o.all.st = "ok" => o.all.v.write = text)
              \cup Chk("deepmodel", o.all.st = "ok" => o.all.v.model = model)
              \cup Chk("deepback", o.all.st = "ok" => o.all.v.back = model))

(* ---------------------------------------------------------------- tree *)
(* a parse tree made by hand: what may be written *)
LegalPP(p) ==
    /\ LegalName(p.n)
    /\ \A i \in 1..Len(p.p) : LegalParam(<<p.p[i][1], p.p[i][3]>>) /\ (p.p[i][2] = 0) = (p.p[i][3] = <<>>)
    /\ ~AmbiguousType(p.p)
    /\ (TypeOf(p.n, p.p) # "TEXT" => NoBreak(p.v))
RECURSIVE LegalNode(_)
LegalNode(t) ==
    /\ PlainName(t.n)
    /\ \A i \in 1..Len(t.props) : LegalPP(t.props[i])
    /\ \A i \in 1..Len(t.comps) : LegalNode(t.comps[i])

JudgeTree(c, o) ==
    LET P(i) == o.pool[i]
        tree == [props |-> c.tree.props, comps |-> c.tree.comps]
        legal == LegalNode(c.tree)
        strange == CalStrange(tree)
        kept == P(o.kept)
        print == P(o.print)
        conv(r) == r.st = "ok" /\ (ModelOf(tree, r.v) \/ (Lost(AllNodes(tree.comps)) /\ ModelLost(tree, r.v))) /\ CalOk(r.v)
        comp(d, n) == DumpCalComp(d) = ToCalComp(n, TRUE) \/ (Lost(AllNodes(<<n>>)) /\ DumpCalComp(d) = ToCalComp(n, FALSE))
        model == DumpCal(P(o.calp).v)
    IN Chk("total", /\ \A x \in {"print", "calp", "calv", "comps", "props", "w"} : Answer(P(o[x]))
                    /\ Answer(o.pprint) /\ print.st = "ok" /\ Answer(P(o.rc2)) /\ Answer(P(o.cal2)))
       \cup Chk("kept", OkIs(kept, tree))
       \cup Chk("json", \A i \in 1..Len(o.json) : P(o.json[i]) = kept /\ P(o.jprint[i]) = print /\ OkIs(o.jeq[i], TRUE))
       \cup (IF ~legal THEN {} ELSE
              Chk("print", print.st = "ok" /\ PrintsCal(tree, print.v))
              \cup Chk("reread", P(o.rc2) = kept)
              \cup Chk("reprint", o.pprint.st = "ok" /\ Len(o.pprint.v) = Len(tree.props) /\ \A i \in 1..Len(tree.props) :
                        LET ls == Lines(Unfold(o.pprint.v[i])) IN
                        WellFolded(o.pprint.v[i]) /\ NoTabFold(o.pprint.v[i]) /\ Len(ls) = 1 /\ PLine(tree.props[i], Lex(ls[1])))
              \cup (IF strange THEN {} ELSE
                     Chk("convert", conv(P(o.cal2)))
                     \cup Chk("rewrite", P(o.calp).st = "ok" /\ LegalCal(model) => P(o.w).st = "ok" /\ WrittenCal(model, P(o.w).v, o.t0, o.t1))))
       \cup (IF strange THEN {} ELSE
              Chk("convert2", /\ conv(P(o.calp)) /\ conv(P(o.calv))
                              /\ P(o.comps).st = "ok" /\ Len(P(o.comps).v) = Len(tree.comps)
                              /\ \A i \in 1..Len(tree.comps) : comp(P(o.comps).v[i], tree.comps[i])
                              /\ P(o.props).st = "ok" /\ Len(P(o.props).v) = Len(tree.props)
                              /\ \A i \in 1..Len(tree.props) : DumpProp(P(o.props).v[i]) = ToProp(tree.props[i])))

(* ---------------------------------------------------------------- text *)
(* a text of a parse tree stays the same in all ways to get at it; only decoding it changes it *)
JudgeText(c, o) ==
    LET P(i) == o.pool[i] IN
    Chk("ptext", /\ o.same.st = "ok" /\ \A i \in 1..Len(o.same.v) : P(o.same.v[i]) = c.text
                 /\ o.eq.st = "ok" /\ \A i \in 1..Len(o.eq.v) : o.eq.v[i]
                 /\ o.ne.st = "ok" /\ \A i \in 1..Len(o.ne.v) : ~o.ne.v[i])
    \cup Chk("decoded", o.decoded.st = "ok" /\ \A i \in 1..Len(o.decoded.v) : P(o.decoded.v[i]) = Decode(c.text))

(* --------------------------------------------------------------- print *)
(***************************************************************************)
(* What the print functions put on the standard output: the text that is   *)
(* also written otherwise, and perhaps one line break more.                *)
(***************************************************************************)
Stripped(t) == IF Len(t) >= 2 /\ SubSeq(t, Len(t) - 1, Len(t)) = CRLF THEN SubSeq(t, 1, Len(t) - 2) ELSE t
JudgePrint(c, o) ==
    LET shows(r, Right(_)) == r.st = "ok" /\ (Right(r.v) \/ Right(Stripped(r.v)))
        cal == DumpCal(o.cal.v)
        comps(t) == LET r == WireTree(t) IN
                    /\ (cal.comps # <<>> => NoTabFold(t) /\ OnlyCrLf(t) /\ Longest(t) <= Limit)
                    /\ Finished(r) /\ SameLength(r.roots, cal.comps)
                    /\ \A i \in 1..Len(cal.comps) : WritesComp(cal.comps[i], r.roots[i], o.pcomps.t0, o.pcomps.t1)
    IN Chk("printed",
           /\ (o.cal.st = "err" => o.pcal.st = "err" /\ o.pcomps.st = "err")
           /\ (o.tree.st = "err" => o.ptree.st = "err")
           /\ (o.tree.st = "ok" /\ LegalNode(Prefix(o.tree.v)) => shows(o.ptree, LAMBDA t : PrintsCal(o.tree.v, t)))
           /\ (o.cal.st = "ok" /\ LegalCal(cal) =>
                 /\ shows(o.pcal, LAMBDA t : WrittenCal(cal, t, o.pcal.t0, o.pcal.t1))
                 /\ o.pcomps.st = "ok" /\ comps(o.pcomps.v)))
       \cup Chk("total", \A x \in DOMAIN o : Answer(o[x]))

(* ------------------------------------------------------------------ dt *)
JudgeDt(c, o) ==
    LET v == Obs(c.v)
        n == Fraction(c.v)
        p == DateProp(c.key, v)
        legal == LegalProp(p) /\ (v.f = "zoned" => v.tz # <<>>)
        ls == Lines(Unfold(o.wire.v))
    IN Chk("dtprop", DumpProp(o.prop) = p /\ PropOk(o.prop))
       \cup Chk("dtback", Says(Some(v), o.back))
       \cup Chk("dtnaive", \A x \in {"naive", "naive2"} : o[x].st = "ok" /\ Obs(o[x].v) = DatePart(v))
       \cup Chk("dtconv", o.conv.st = "ok" /\ SameMoment(c.v, o.conv.v)
                          /\ ("conv2" \in DOMAIN o => o.conv2.st = "ok" /\ Obs(o.conv2.v) = v))
       \cup (IF v.f = "date" THEN {} ELSE
              Chk("dtstr", Says(Some(IF v.f = "zoned" THEN [f |-> "floating", y |-> v.y, m |-> v.m, d |-> v.d, H |-> v.H, M |-> v.M, S |-> v.S]
                                     ELSE v), o.str))
              \cup Chk("dtutc", CASE v.f = "utc" -> SaysWith(Some(v), n, o.utc)
                                  [] v.f = "floating" -> o.utc.st = "none"
                                  [] OTHER -> /\ (KnownZone(v.tz) /\ v.y \in 2010..2030 => SaysWith(ToUtc(v.tz, v), n, o.utc))
                                              /\ (v.tz \in UnknownZones => o.utc.st = "none")
                                              /\ ("near" \in DOMAIN o /\ v.y \in 2..9998 => SaysWith(UtcOf(v, o.near), n, o.utc))))
       \cup (IF ~legal THEN {} ELSE
              Chk("dtwire", o.wire.st = "ok" /\ Len(ls) = 1 /\ OnLine(p, Lex(ls[1])))
              \cup Chk("dtread", Says(Some(v), o.readback))
              \cup Chk("dtparsed", Says(Some(v), o.parsed)))

JudgeDtRaw(c, o) ==
    LET p == ArgProp(c)
        type == TypeOf(p.k, WireParams(p))
        means == MeansDate(type, TzOf(p), c.v)
        utc == MeansUtc(c.v)
        at(k, e) == IF c.k = T(k) THEN e ELSE None
    IN Chk("dtraw", /\ Says(means, o.back)
                    /\ Says(at("DTSTART", means), o.start)
                    /\ Says(at("DTEND", means), o.end)
                    /\ Says(at("DUE", means), o.due)
                    /\ Says(at("DTSTAMP", utc), o.stamp)
                    /\ Says(at("CREATED", utc), o.created)
                    /\ Says(at("LAST-MODIFIED", utc), o.lastmod)
                    /\ Says(at("COMPLETED", utc), o.completed)
                    /\ Says(MeansDateTime(c.v), o.str))
       \cup Chk("dtrawparsed",
                /\ (means.st = "some" => Says(means, o.parsed))
                /\ (o.parsed.st = "ok" => Says(ByText(TzOf(p), c.v), o.parsed)))
       \cup Chk("total", \A x \in DOMAIN o : Answer(o[x]))

JudgeZone(c, o) ==
    LET v == c.v
        known == o.known
        table == KnownZone(v.tz)
        valid == ValidDate(v.y, v.m, v.d) /\ ValidTime(v.H, v.M, v.S)
        validHm == ValidDate(v.y, v.m, v.d) /\ ValidTime(v.H, v.M, 0)
        z == Zoned(v, v.tz)
        z0 == [z EXCEPT !.S = 0]
        n == Fraction(v)
        exact(r, e) == r.st = "ok" /\ Obs(r.v) = e /\ r.v.ns = n
        refused(x) == x \in DOMAIN o => o[x].st = "err"
        there == Zoned(PlusSeconds(v, o.inst.off, "zoned"), v.tz)
    IN Chk("zknown", (table => o.known) /\ (v.tz \in UnknownZones => ~o.known) /\ (o.valid = valid))
       \cup Chk("zutc", valid =>
              /\ (table /\ v.y \in 2010..2030 => SaysWith(ToUtc(v.tz, v), n, o.utc))
              /\ (known => SaysWith(UtcOf(v, o.near), n, o.utc))
              /\ (~known => o.utc.st = "none"))
       \cup Chk("zmake",
              /\ (known => LET e == IF validHm THEN Some(z0) ELSE None IN Says(e, o.ymdhm) /\ Says(e, o.ymdhm2))
              /\ (known /\ valid => exact(o.try, z) /\ exact(o.try2, z) /\ exact(o.from, z) /\ exact(o.from2, z))
              /\ (~known => refused("try") /\ refused("try2")))
       \cup Chk("zinst", known /\ valid =>
              /\ (table /\ v.y \in 2011..2029 => exact(o.inst, FromUtc(v.tz, v)))
              /\ exact(o.inst, there)
              /\ SaysWith(UtcOf(there, o.inst.near), n, o.inst.back))

(* -------------------------------------------------------------- alarms *)
JudgeTrig(c, o) ==
    LET tr == ArgTrigger(c)
        p == TrigProp(c, [props |-> {DumpProp(o.prop)}])
        legal == LegalProp(p) /\ ("dt" \in DOMAIN c /\ c.dt.f = "zoned" => c.dt.tz # <<>>)
        ls == Lines(Unfold(o.wire.v))
        audio == Apply(StoreInit, [op |-> "new", r |-> 1, kind |-> "audio", trig |-> c], DumpComp(o.audio)).regs[1]
        display == Apply(StoreInit, [op |-> "new", r |-> 1, kind |-> "display", trig |-> c, desc |-> c.desc], DumpComp(o.display)).regs[1]
    IN Chk("trig", IsTrigger(tr, o.tr))
       \cup Chk("trigprop", DumpProp(o.prop) = p /\ PropOk(o.prop))
       \cup Chk("trigback", SaysTrigger(Some(WrittenTrigger(tr)), o.back) /\ OkIs(o.eq, WrittenTrigger(tr) = tr \/ Fraction(tr.dt) = 0))
       \cup Chk("alarm", /\ CompOk(o.audio) /\ DumpComp(o.audio) = NoVar(audio)
                         /\ CompOk(o.display) /\ DumpComp(o.display) = NoVar(display))
       \cup (IF ~legal THEN {} ELSE
              Chk("trigwire", o.wire.st = "ok" /\ Len(ls) = 1 /\ OnLine(p, Lex(ls[1])))
              \cup Chk("trigread", SaysTrigger(Some(WrittenTrigger(tr)), o.readback)))
JudgeTrigRaw(c, o) == Chk("trigraw", SaysTrigger(MeansTrigger(ArgProp(c)), o.back)) \cup Chk("total", Answer(o.back))

(* ---------------------------------------------------------- value types *)
JudgeVt(c, o) ==
    LET hasValue == "value" \in DOMAIN c
        ps == IF hasValue THEN <<<<VALUE, IF c.value = <<>> THEN 0 ELSE 1, c.value>>>> ELSE <<>>
        type == TypeOf(c.key, ps)
        ls == Lines(Unfold(o.wire.v))
        byValue == TypeOfValue(c.value)
    IN Chk("vtype", o.vtype = type)
       \cup Chk("vwrite", NoBreak(c.text) \/ type = "TEXT" =>
                o.wire.st = "ok" /\ Len(ls) = 1 /\ LineFor(c.key, ps, c.text, Lex(ls[1]), FALSE))
       \cup Chk("vread", NoBreak(c.text) => OkIs(o.pp, [n |-> c.key, v |-> IF type = "TEXT" THEN Decode(c.text) ELSE c.text, p |-> ps]))
       \cup (IF ~hasValue THEN {} ELSE
              Chk("vconv", /\ o.from = byValue /\ o.param = byValue
                           /\ (c.otherkey # VALUE => o.otherparam = NONE)
                           /\ (byValue # NONE => o.topar = <<VALUE, c.value>> /\ o.again = byValue)))

(* ------------------------------------------------------------- programs *)
(***************************************************************************)
(* One call of a program: what is recorded after the call must be what     *)
(* Apply gives.  The machine then goes on from what was recorded, so that  *)
(* every call is judged for itself.                                        *)
(***************************************************************************)
SeenOf(op, post) ==
    IF op.op \in {"new", "durrep", "into"} THEN DumpComp(post.r)
    ELSE IF op.op = "ttl" THEN DumpCal(post.c)
    ELSE NoneSeen
IsCalOp(op) == "c" \in DOMAIN op
Observed(st, st2, op, post) == \* st2 with the registers that were recorded replaced by the recording
    LET calTo == IsCalOp(op) /\ op.op # "take"
        reg(s, i, d, like) == [s EXCEPT !.regs = Put(@, i, WithVar(DumpComp(d), like))]
        cal(s, i, d) == [s EXCEPT !.cals = Put(@, i, DumpCal(d))]
        s1 == IF "r" \in DOMAIN post THEN reg(st2, op.r, post.r, st2.regs[op.r].var) ELSE st2
        s2 == IF "c" \in DOMAIN post THEN cal(s1, op.c, post.c) ELSE s1
        s3 == IF "from" \in DOMAIN post
              THEN IF IsCalOp(op) THEN cal(s2, op.from, post.from) ELSE reg(s2, op.from, post.from, st2.regs[op.from].var)
              ELSE s2
    IN IF "to" \in DOMAIN post
       THEN IF calTo THEN cal(s3, op.to, post.to) ELSE reg(s3, op.to, post.to, st2.regs[op.to].var)
       ELSE s3
DumpsOk(op, post) ==
    \A x \in DOMAIN post :
        IF IsCalOp(op) /\ ~(op.op = "take" /\ x = "to") THEN CalOk(post[x]) ELSE CompOk(post[x])

RECURSIVE NothingMissing(_)
NothingMissing(c) == HasProp(c, UID) /\ HasProp(c, DTSTAMP) /\ \A i \in 1..Len(c.comps) : NothingMissing(c.comps[i])
CalComplete(cal) == \A i \in 1..Len(cal.comps) : NothingMissing(cal.comps[i])

(* what cannot be written in more than one order of parameters *)
RECURSIVE OneParam(_)
OneParam(c) ==
    /\ \A p \in c.props : Cardinality(p.p) <= 1
    /\ \A k \in DOMAIN c.multi : \A i \in 1..Len(c.multi[k]) : Cardinality(c.multi[k][i].p) <= 1
    /\ \A i \in 1..Len(c.comps) : OneParam(c.comps[i])

JudgeGet(c, r) ==
    LET bad(names) == {i \in 1..Len(r.get) : r.get[i][1] \in names /\ ~GetterSays(c, r.get[i][1], r.get[i][2])} IN
    Chk("getmap", bad(TextGetters) = {} /\ \A i \in 1..Len(r.val) : r.val[i][2] = PropVal(c, r.val[i][1]))
    \cup Chk("gettext", bad(TextGetters) = {})
    \cup Chk("gettyped", bad(TypedGetters) = {})
    \cup Chk("getdate", bad(DateGetters) = {})
    \cup Chk("gettrig", bad({"trigger"}) = {})
(***************************************************************************)
(* Writing to a destination that takes only lim.list[i].size bytes: it is  *)
(* an error exactly if that is less than needed, and what was written is   *)
(* the beginning of the text.  With generated UIDs only sizes far below    *)
(* are decided.                                                            *)
(***************************************************************************)
LimitedOk(lim, complete) ==
    \A i \in 1..Len(lim.list) : LET e == lim.list[i] IN
        /\ e.st \in {"ok", "err"}
        /\ (complete => e.prefix /\ (e.st = "ok") = (e.size >= lim.need) /\ (e.st = "ok" => e.whole))
        /\ (3 * e.size <= lim.need /\ lim.need > 0 => e.st = "err")
JudgeSer(c, r) ==
    LET fine(x) == x.st = "ok" /\ WrittenComp(NoVar(c), x.v, r.t0, r.t1)
        uids(x) == GeneratedUids(c, WireTree(x.v).roots[1])
        same == r.a.st = "ok" /\ r.b = r.a /\ r.d = r.a /\ r.c.st = "ok" /\ (OneParam(c) => r.c = r.a)
    IN IF ~LegalComp(c)
       THEN Chk("serall", NothingMissing(c) => same) \cup Chk("limited", LimitedOk(r.lim, NothingMissing(c)))
       ELSE
       Chk("ser", fine(r.a) /\ fine(r.b) /\ fine(r.d))
       \cup Chk("serwell", \A x \in {"a", "b", "c", "d"} : r[x].st = "ok" /\ WellFolded(r[x].v))
       \cup Chk("serall", /\ fine(r.a) /\ fine(r.b) /\ fine(r.c) /\ fine(r.d)
                          /\ (NothingMissing(c) => r.a.v = r.b.v /\ r.a.v = r.d.v)
                          /\ Distinct(uids(r.a) \o uids(r.b) \o uids(r.c) \o uids(r.d)))
       \cup Chk("limited", LimitedOk(r.lim, NothingMissing(c)))
       \cup Chk("seruid", fine(r.a) /\ fine(r.b) => Distinct(uids(r.a) \o uids(r.b)))
JudgeCalGet(cal, r) ==
    LET n == Len(cal.comps)
        dumps(s) == [i \in 1..Len(s) |-> DumpCalComp(s[i])]
        end(o, i) == IF n = 0 THEN o.st = "none" ELSE o.st = "some" /\ DumpCalComp(o.v) = cal.comps[i]
        variant(a, x) == /\ IF x.var = "event" THEN a.event.st = "some" /\ DumpComp(a.event.v) = NoVar(x) ELSE a.event.st = "none"
                         /\ IF x.var = "todo" THEN a.todo.st = "some" /\ DumpComp(a.todo.v) = NoVar(x) ELSE a.todo.st = "none"
    IN Chk("cget", /\ r.len = n /\ r.empty = (n = 0)
                   /\ dumps(r.iter) = cal.comps /\ dumps(r.index) = cal.comps /\ dumps(r.asref) = cal.comps
                   /\ end(r.first, 1) /\ end(r.last, n)
                   /\ Len(r.as) = n /\ \A i \in 1..n : variant(r.as[i], cal.comps[i])
                   /\ \A i \in 1..Len(r.val) : r.val[i][2] = FirstVal(cal, r.val[i][1]))
       \cup Chk("cmeta", /\ r.name = CalText(cal, "name")
                         /\ r.description = CalText(cal, "description")
                         /\ r.timezone = CalText(cal, "timezone")
                         /\ TtlSays(CalTtl(cal), r.ttl))
JudgeCalWrite(cal, r) ==
    LET fine(x) == x.st = "ok" /\ WrittenCal(cal, x.v, r.t0, r.t1)
        uids(x) == CalUids(cal, WireTree(x.v).roots[1])
    IN IF ~LegalCal(cal)
       THEN Chk("cwriteall", CalComplete(cal) => r.a.st = "ok" /\ r.b = r.a /\ r.d = r.a) \cup Chk("limited", LimitedOk(r.lim, CalComplete(cal)))
       ELSE
       Chk("cwrite", fine(r.a))
       \cup Chk("limited", LimitedOk(r.lim, CalComplete(cal)))
       \cup Chk("cwell", \A x \in {"a", "b", "d"} : r[x].st = "ok" /\ WellFolded(r[x].v))
       \cup Chk("cwriteall", /\ fine(r.a) /\ fine(r.b) /\ fine(r.d)
                             /\ (CalComplete(cal) => r.a.v = r.b.v /\ r.a.v = r.d.v)
                             /\ Distinct(uids(r.a) \o uids(r.b) \o uids(r.d)))
(* the same calendar written by several threads and several processes at once *)
JudgeUids(c, o) ==
    LET cal == [props |-> <<>>, comps |-> [i \in 1..Len(c.kinds) |-> EmptyComp(c.kinds[i])]]
    IN Chk("everywhere", /\ \A i \in 1..Len(o.texts) : o.texts[i].st = "ok" /\ WrittenCal(cal, o.texts[i].v, o.t0, o.t1)
                         /\ Distinct(Concat([i \in 1..Len(o.texts) |-> CalUids(cal, WireTree(o.texts[i].v).roots[1])])))
(* the text that was transported is read as the specification reads it *)
JudgeReread(cal, op, r, post) ==
    LET lf == op.tr.lf = 1
        claimed == LegalCal(cal) /\ (lf => ~Has(r.used, CR))
        rd == ReadText(Unfold(r.used))
        tree == RootTree(rd.roots)
        back == DumpCal(post.to)
    IN IF ~claimed THEN {} ELSE
       Chk("roundtrip", RoundTripCal(cal) => r.st = "ok" /\ CalOk(post.to) /\ ComesBack(cal, back))
       \cup Chk("roundeq", RoundTripCal(cal) /\ r.st = "ok" => (r.eq = (CalComplete(cal))))
       \cup Chk("transport", Finished(rd) /\ Len(rd.roots) = 1 /\ r.st = "ok" /\ ~CalStrange(tree) =>
                   back = ToCalendar(tree, TRUE) \/ (Lost(AllNodes(tree.comps)) /\ back = ToCalendar(tree, FALSE)))
       \cup Chk("total", r.st = "ok")

PostClass(op) ==
    CASE op.op \in {"cset", "ttl"} -> "cpostmeta"
      [] IsCalOp(op) -> "cpost"
      [] op.op \in {"date", "stamp", "allday"} -> "postdate"
      [] op.op \in {"text", "venue", "num", "class", "status"} -> "posttyped"
      [] op.op = "into" -> IF op.what \in {"duration", "trigger"} THEN "posttrig" ELSE "posttyped"
      [] op.op = "durrep" \/ (op.op = "new" /\ op.kind \in {"audio", "display"}) -> "posttrig"
      [] OTHER -> "post"
JudgeCall(st, ev) ==
    LET op == ev.op
        st2 == Apply(st, op, SeenOf(op, ev.post))
        st3 == Observed(st, st2, op, ev.post)
        moved == op.op = "creread"
        same == IF moved THEN st3.cals[op.c] = st.cals[op.c] ELSE st3 = st2
    IN Chk(PostClass(op), (moved /\ ev.r.st # "ok") \/ (same /\ DumpsOk(op, ev.post)))
       \cup (IF op.op \in {"ser", "cwrite", "get", "cget"} THEN Chk("pure", same) ELSE {})
       \cup (CASE op.op = "get" -> JudgeGet(st3.regs[op.r], ev.r)
               [] op.op = "ser" -> JudgeSer(st3.regs[op.r], ev.r)
               [] op.op = "cget" -> JudgeCalGet(st3.cals[op.c], ev.r)
               [] op.op = "cwrite" -> JudgeCalWrite(st3.cals[op.c], ev.r)
               [] op.op = "creread" -> JudgeReread(st.cals[op.c], op, ev.r, ev.post)
               [] OTHER -> {})
Panicked(ev) == "st" \in DOMAIN ev.r /\ ev.r.st = "panic"
=============================================================================
