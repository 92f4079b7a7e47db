-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The object model: properties, components, calendars.                    *)
(*   property   [k, v, p]   p: set of <<name, value>>                       *)
(*   component  [kind, props, multi, comps]                                *)
(*              props: set of properties with distinct names               *)
(*              multi: name -> non-empty sequence of properties            *)
(*   calendar   [props, comps]   two sequences; its components also carry  *)
(*              var: "event", "todo", "venue" or "other"                   *)
(***************************************************************************)
EXTENDS Reader, DateTime, Durations

VEVENT == T("VEVENT")   VTODO == T("VTODO")   VVENUE == T("VVENUE")
VALARM == T("VALARM")   VCALENDAR == T("VCALENDAR")
DTSTAMP == T("DTSTAMP") UID == T("UID")
VarOf(kind) == CASE kind = VEVENT -> "event" [] kind = VTODO -> "todo" [] kind = VVENUE -> "venue" [] OTHER -> "other"

Prop(k, v) == [k |-> k, v |-> v, p |-> {}]
PropWith(k, v, ps) == [k |-> k, v |-> v, p |-> ps]
EmptyComp(kind) == [kind |-> kind, props |-> {}, multi |-> <<>>, comps |-> <<>>]

(* ------------------------------------------------ recorded dumps *)
DumpProp(d) == [k |-> d.k, v |-> d.v, p |-> SetOf(d.p)]
(* parameters are a map: no name occurs twice *)
PropOk(d) == \A i, j \in 1..Len(d.p) : i # j => d.p[i][1] # d.p[j][1]
MultiOf(seq) == LET ks == {seq[i].k : i \in 1..Len(seq)} IN
                [k \in ks |-> SelectSeq(seq, LAMBDA x : x.k = k)]
RECURSIVE DumpComp(_)
DumpComp(d) == [kind |-> d.kind,
                props |-> {DumpProp(d.props[i]) : i \in 1..Len(d.props)},
                multi |-> MultiOf([i \in 1..Len(d.multi) |-> DumpProp(d.multi[i])]),
                comps |-> [i \in 1..Len(d.comps) |-> DumpComp(d.comps[i])]]
RECURSIVE CompOk(_)
CompOk(d) ==
    /\ \A i \in 1..Len(d.props) : PropOk(d.props[i])
    /\ \A i \in 1..Len(d.multi) : PropOk(d.multi[i])
    /\ \A i, j \in 1..Len(d.props) : i # j => d.props[i].k # d.props[j].k
    /\ \A i \in 1..Len(d.comps) : CompOk(d.comps[i])
WithVar(c, var) == [kind |-> c.kind, props |-> c.props, multi |-> c.multi, comps |-> c.comps, var |-> var]
NoVar(c) == [kind |-> c.kind, props |-> c.props, multi |-> c.multi, comps |-> c.comps]
DumpCalComp(d) == WithVar(DumpComp(d), d.var)
DumpCal(d) == [props |-> [i \in 1..Len(d.props) |-> DumpProp(d.props[i])],
               comps |-> [i \in 1..Len(d.comps) |-> DumpCalComp(d.comps[i])]]
CalOk(d) == (\A i \in 1..Len(d.props) : PropOk(d.props[i])) /\ (\A i \in 1..Len(d.comps) : CompOk(d.comps[i]))

(* ------------------------------------------------ reading: parse tree to model *)
(***************************************************************************)
(* Names that RFC 5545 allows to occur repeatedly.  Which of them the      *)
(* model keeps as repeated properties even if they occur only once:        *)
(***************************************************************************)
Repeatable == {T("ATTACH"), T("ATTENDEE"), T("CATEGORIES"), T("COMMENT"), T("CONTACT"), T("EXDATE"),
               T("FREEBUSY"), T("RDATE"), T("RESOURCES")}
(* kept as single properties when they occur once; see the known findings for more than once *)
ALSO_REPEATABLE == {T("RELATED-TO"), T("REQUEST-STATUS")}
LaterRepeatable(n) == n \in ALSO_REPEATABLE \/ StartsWith(n, <<88, DASH>>)
(* placeholder names of the RFC grammar that are no property names *)
Placeholder(n) == n \in {T("IANA-PROP"), T("RELATED"), T("RSTATUS"), T("X-PROP")}

ToProp(pp) == [k |-> pp.n, v |-> pp.v, p |-> {<<pp.p[i][1], pp.p[i][3]>> : i \in 1..Len(pp.p)}]
DupParams(pp) == \E i, j \in 1..Len(pp.p) : i < j /\ pp.p[i][1] = pp.p[j][1]
RECURSIVE AllNodes(_)
AllNodes(nodes) == nodes \o Concat([i \in 1..Len(nodes) |-> AllNodes(nodes[i].comps)])
NodeDups(node) == \E i \in 1..Len(node.props) : DupParams(node.props[i])
Occurrences(node, name) == SelectSeq(node.props, LAMBDA p : p.n = name)
(* the known finding: repeated properties of which only the last is kept *)
NodeLost(node) == \E i, j \in 1..Len(node.props) : i < j /\ node.props[i].n = node.props[j].n /\ LaterRepeatable(node.props[i].n)
NodePlaceholder(node) == \E i \in 1..Len(node.props) : Placeholder(node.props[i].n)

(* `keepAll': repeated X-, RELATED-TO, REQUEST-STATUS properties are kept *)
RECURSIVE ToComp(_, _)
ToComp(node, keepAll) ==
    LET names == {node.props[i].n : i \in 1..Len(node.props)}
        all(n) == [i \in 1..Len(Occurrences(node, n)) |-> ToProp(Occurrences(node, n)[i])]
        multi == {n \in names : n \in Repeatable \/ (keepAll /\ LaterRepeatable(n) /\ Len(Occurrences(node, n)) > 1)}
    IN [kind |-> node.n,
        props |-> {LET o == Occurrences(node, n) IN ToProp(o[Len(o)]) : n \in names \ multi},
        multi |-> [n \in multi |-> all(n)],
        comps |-> [i \in 1..Len(node.comps) |-> ToComp(node.comps[i], keepAll)]]
ToCalComp(node, keepAll) == WithVar(ToComp(node, keepAll), VarOf(node.n))
(* the calendar made from the roots of a stream; props are those of VCALENDAR *)
ToCalendar(tree, keepAll) ==
    [props |-> [i \in 1..Len(tree.props) |-> ToProp(tree.props[i])],
     comps |-> [i \in 1..Len(tree.comps) |-> ToCalComp(tree.comps[i], keepAll)]]
RootTree(roots) ==
    IF roots # <<>> /\ roots[1].n = VCALENDAR
    THEN [props |-> roots[1].props, comps |-> roots[1].comps]
    ELSE [props |-> <<>>, comps |-> roots]
(* several roots of which one is a VCALENDAR: which of them is the calendar is not said *)
MixedRoots(roots) == Len(roots) > 1 /\ \E i \in 1..Len(roots) : roots[i].n = VCALENDAR

(* ------------------------------------------------ writing *)
WireParams(p) == SetToSeq({<<x[1], IF x[2] = <<>> THEN 0 ELSE 1, x[2]>> : x \in p.p})
OnLine(p, l) == LineFor(p.k, WireParams(p), p.v, l, FALSE)
SameLength(a, b) == Len(a) = Len(b)
LexLeq(a, b) == \* texts of equal length compared by character
    a = b \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
IsStamp(l, t0, t1) ==
    /\ ~l.odd /\ l.name = DTSTAMP /\ l.params = <<>>
    /\ MeansUtc(l.raw).st = "some"
    /\ LexLeq(t0, l.raw) /\ LexLeq(l.raw, t1)
IsUid(l) == ~l.odd /\ l.name = UID /\ l.params = <<>> /\ l.raw # <<>> /\ \A i \in 1..Len(l.raw) : l.raw[i] \notin {BSL, COMMA, SEMI}
HasProp(c, k) == \E p \in c.props : p.k = k
TheProp(c, k) == CHOOSE p \in c.props : p.k = k

(* the lines of one name are the single property, if any, and the repeated ones in order *)
LinesOfName(c, name, ls, t0, t1) ==
    LET many == IF name \in DOMAIN c.multi THEN c.multi[name] ELSE <<>>
        allMany(s) == SameLength(s, many) /\ \A i \in 1..Len(s) : OnLine(many[i], s[i])
        withOne(One(_)) == \E j \in 1..Len(ls) : One(ls[j]) /\ allMany(RemoveAt(ls, j))
    IN IF HasProp(c, name) THEN withOne(LAMBDA l : OnLine(TheProp(c, name), l))
       ELSE IF name = DTSTAMP THEN withOne(LAMBDA l : IsStamp(l, t0, t1))
       ELSE IF name = UID THEN withOne(IsUid)
       ELSE allMany(ls)
NamesOf(c) == {p.k : p \in c.props} \cup DOMAIN c.multi
RECURSIVE WritesComp(_, _, _, _)
WritesComp(c, node, t0, t1) ==
    LET lineNames == {node.props[i].name : i \in 1..Len(node.props)}
        of(name) == SelectSeq(node.props, LAMBDA l : l.name = name)
    IN /\ node.n = c.kind
       /\ lineNames = NamesOf(c) \cup {DTSTAMP, UID}
       /\ \A name \in lineNames : LinesOfName(c, name, of(name), t0, t1)
       /\ SameLength(c.comps, node.comps)
       /\ \A i \in 1..Len(c.comps) : WritesComp(c.comps[i], node.comps[i], t0, t1)
WritesCal(cal, node, t0, t1) ==
    /\ node.n = VCALENDAR
    /\ SameLength(cal.props, node.props)
    /\ \A i \in 1..Len(cal.props) : OnLine(cal.props[i], node.props[i])
    /\ SameLength(cal.comps, node.comps)
    /\ \A i \in 1..Len(cal.comps) : WritesComp(cal.comps[i], node.comps[i], t0, t1)
(* generated UIDs: one for every component that has none *)
RECURSIVE GeneratedUids(_, _)
GeneratedUids(c, node) ==
    (IF HasProp(c, UID) THEN <<>>
     ELSE LET ls == SelectSeq(node.props, LAMBDA l : l.name = UID)
              many == IF UID \in DOMAIN c.multi THEN c.multi[UID] ELSE <<>>
              js == {j \in 1..Len(ls) : /\ IsUid(ls[j])
                                        /\ Len(ls) = Len(many) + 1
                                        /\ \A i \in 1..Len(many) : OnLine(many[i], RemoveAt(ls, j)[i])}
          IN IF js = {} THEN <<>> ELSE <<ls[CHOOSE j \in js : TRUE].raw>>)
    \o Concat([i \in 1..(IF Len(c.comps) < Len(node.comps) THEN Len(c.comps) ELSE Len(node.comps))
                 |-> GeneratedUids(c.comps[i], node.comps[i])])
CalUids(cal, node) == Concat([i \in 1..(IF Len(cal.comps) < Len(node.comps) THEN Len(cal.comps) ELSE Len(node.comps))
                                |-> GeneratedUids(cal.comps[i], node.comps[i])])
Distinct(seq) == Cardinality(SetOf(seq)) = Len(seq)

(* the tree of a written text, its lines lexed but not interpreted *)
Lexed(l) == l
WireTree(text) == ReadLinesWith(Lines(Unfold(text)), Lexed)
OneRoot(r) == Finished(r) /\ Len(r.roots) = 1
WrittenComp(c, text, t0, t1) ==
    LET r == WireTree(text) IN WellFolded(text) /\ NoTabFold(text) /\ OneRoot(r) /\ WritesComp(c, r.roots[1], t0, t1)
                               /\ Distinct(GeneratedUids(c, r.roots[1]))
WrittenCal(cal, text, t0, t1) ==
    LET r == WireTree(text) IN WellFolded(text) /\ NoTabFold(text) /\ OneRoot(r) /\ WritesCal(cal, r.roots[1], t0, t1)
                               /\ Distinct(CalUids(cal, r.roots[1]))

(* ------------------------------------------------ parse tree printed *)
PLine(pp, l) == LineFor(pp.n, pp.p, pp.v, l, TRUE)
RECURSIVE PrintsComp(_, _)
PrintsComp(tree, node) ==
    /\ node.n = tree.n
    /\ SameLength(tree.props, node.props)
    /\ \A i \in 1..Len(tree.props) : PLine(tree.props[i], node.props[i])
    /\ SameLength(tree.comps, node.comps)
    /\ \A i \in 1..Len(tree.comps) : PrintsComp(tree.comps[i], node.comps[i])
PrintsCal(tree, text) ==
    LET r == WireTree(text) IN
    /\ WellFolded(text) /\ NoTabFold(text) /\ OneRoot(r)
    /\ PrintsComp([n |-> VCALENDAR, props |-> tree.props, comps |-> tree.comps], r.roots[1])

(* ------------------------------------------------ what may be written *)
NoBreak(t) == ~Has(t, LF) /\ ~Has(t, CR)
LegalParam(x) == PlainName(x[1]) /\ NoBreak(x[2]) /\ ~Has(x[2], DQ)
LegalName(n) == PlainName(n) /\ UpperText(n) \notin {BEGIN, END_}
LegalProp(p) ==
    /\ LegalName(p.k)
    /\ \A x \in p.p : LegalParam(x)
    /\ (TypeOf(p.k, WireParams(p)) # "TEXT" => NoBreak(p.v))
RECURSIVE LegalComp(_)
LegalComp(c) ==
    /\ PlainName(c.kind)
    /\ \A p \in c.props : LegalProp(p)
    /\ \A k \in DOMAIN c.multi : \A i \in 1..Len(c.multi[k]) : LegalProp(c.multi[k][i])
    /\ \A i \in 1..Len(c.comps) : LegalComp(c.comps[i])
LegalCal(cal) == (\A i \in 1..Len(cal.props) : LegalProp(cal.props[i])) /\ (\A i \in 1..Len(cal.comps) : LegalComp(cal.comps[i]))

(* repeatable names are added as repeated properties, and only those *)
RECURSIVE RoundTripComp(_)
RoundTripComp(c) ==
    /\ \A p \in c.props : p.k \notin Repeatable /\ ~Placeholder(p.k)
    /\ DOMAIN c.multi \subseteq Repeatable
    /\ \A i \in 1..Len(c.comps) : RoundTripComp(c.comps[i])
RoundTripCal(cal) == \A i \in 1..Len(cal.comps) : RoundTripComp(cal.comps[i])

(* c comes back as d: exactly the missing DTSTAMP and UID are added *)
RECURSIVE Comes(_, _)
Comes(c, d) ==
    LET missing == {DTSTAMP, UID} \ {p.k : p \in c.props}
        added == {p \in d.props : p.k \in missing}
    IN /\ d.kind = c.kind
       /\ d.multi = c.multi
       /\ d.props \ added = c.props
       /\ {p.k : p \in added} = missing
       /\ Cardinality(added) = Cardinality(missing)
       /\ \A p \in added : p.p = {}
       /\ SameLength(c.comps, d.comps)
       /\ \A i \in 1..Len(c.comps) : Comes(c.comps[i], d.comps[i])
ComesBack(cal, back) ==
    /\ back.props = cal.props
    /\ SameLength(cal.comps, back.comps)
    /\ \A i \in 1..Len(cal.comps) : back.comps[i].var = cal.comps[i].var /\ Comes(cal.comps[i], back.comps[i])
=============================================================================
