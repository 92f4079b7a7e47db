"""What is run for which property: classes of statements, models, generators, probes."""
import corpus

T = lambda s: [ord(c) for c in s]

ALL = set("""cpostmeta postdate posttyped posttrig kept vtype total fold wparams wvalue wline unf pread pround mround rewrite reprint reread inevent incal ljson lagree linsame
lread lparams lvalue lmodel linx lwire param mparam ends cut tree agree single single2 root convert convert2 find print json rereadcal
dtprop dtback dtnaive dtconv dtstr dtwire dtread dtparsed dtutc dtraw dtrawparsed zknown zutc zmake zinst trig trigprop trigback alarm
trigwire trigread trigraw vwrite vread vconv post getmap gettext gettyped getdate gettrig ser serwell serall pure seruid cpost cget
cmeta cwrite cwell cwriteall limited deepread deepall deepprint deepwrite deepmodel deepback roundtrip roundeq transport ways ptext decoded printed everywhere""".split())


# ------------------------------------------------------------------ models
def codec(alphabet, n, names=("SUMMARY",)):
    return dict(module="MCCodec", constants=dict(Alphabet=set(alphabet), MaxLen=n, Names=set(names)),
                invariants="ReaderFollows RoundTrip Recognized Unambiguous OneLine Guarded Rejects Emitted".split())


def decode(alphabet, n, heads=("SUMMARY:", "X-A;VALUE=TEXT:")):
    return dict(module="MCDecode", constants=dict(Alphabet=set(alphabet), MaxLen=n, Heads=set(heads)),
                invariants="Total Length Canonical Agree Once Emitted".split())


def unfold(alphabet, n, read=False):
    return dict(module="MCUnfold", constants=dict(Alphabet=set(alphabet), MaxLen=n, ReadToo=read),
                invariants="SameAsUnfold KeepsOthers NoFoldLeft LinesCover Emitted".split())


def fold(alphabet, n, pads, tails, small=7):
    return dict(module="MCFold", constants=dict(Alphabet=set(alphabet), MaxLen=n, SmallLimit=small, Pads=set(pads), Tails=set(tails)),
                invariants="NothingLost Readable Bounded NotStuck Emitted".split(), properties=["Finishes"])


def line(tokens, n, head="X", param=False):
    return dict(module="MCLine", constants=dict(Head_=head, Tokens=set(tokens), MaxTokens=n, AsParam=param),
                invariants="SameAsLex Stable Sound Emitted".split(), properties=["Settled"])


def reader(texts, n, full):
    return dict(module="MCReader", constants=dict(LineTexts=set(texts), MaxLines=n, FullUpTo=full),
                invariants="MirrorsText SameTree OnlyClosed Accounted SameAsWhole Judged Emitted".split(), properties=["Monotone"])


def store(menu, depth, **kw):
    return dict(module="MCStore", constants=dict(Menu=menu, Depth=depth), invariants=["WellFormed", "Emitted"], properties=["Step"], **kw)


def programs(num, depth):
    """long programs that mix the calls of every menu"""
    return store("all", depth, simulate=(num, depth + 1))


ESC = [92, 110, 78, 44, 59, 58, 10, 97]
DEC = [92, 110, 78, 44, 59, 58, 97]
FOLDS = [13, 10, 32, 9, 97]
WIDTHS = [97, 233, 20013, 128512, 32]
LEX = ["A", ";", ":", "=", '"', " ", ","]
LINES = ["BEGIN:A", "BEGIN:B", "END:A", "END:B", "P:1", "Q", "", "END:AB"]
CALLINES = ["BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VEVENT", "END:VEVENT", "X-A:1", "COMMENT;P=q:2", "SUMMARY:a\\,b"]


# ------------------------------------------------------------------ probes of known findings
def deep():
    return {"k": "deep", "c": {"name": T("A"), "depth": 100000, "ends": 100000}}


def quoted_list():
    return {"k": "read", "c": {"text": T('BEGIN:VEVENT\r\nATTENDEE;MEMBER="mailto:a@x","mailto:b@x":mailto:c@x\r\nEND:VEVENT\r\n'), "full": 0}}


def crashed(rec):
    return "crash" in rec["o"]


LONG = 5000000000  # seconds


def long_trigger():
    return {"k": "trig", "c": {"dur": {"neg": False, "digits": T(str(LONG))}, "desc": []}}


def trigger_unread(rec):
    return rec["o"]["back"]["st"] == "err" and rec["o"]["readback"]["st"] == "err"


def long_ttl():
    return {"k": "prog", "c": {"ops": [{"op": "cnew", "c": 1, "via": "new"}, {"op": "ttl", "c": 1, "dur": {"neg": False, "digits": T(str(LONG))}},
                                       {"op": "cget", "c": 1, "keys": []}]}}


def ttl_unread(rec):
    return rec["o"]["log"][2]["r"]["ttl"]["st"] == "none"


def lost_line(rec):
    if "pool" not in rec["o"]:
        return False
    r = rec["o"]["pool"][rec["o"]["rcs"] - 1]
    return r["st"] != "ok" or len(r["v"]) != 1 or len(r["v"][0]["props"]) != 1



def date(years, allforms):
    return dict(module="MCDate", constants=dict(StartYears=set(years), AllForms=allforms),
                invariants="Valid LastDay FullYear Numbered Weekdays MeansItself Emitted".split(), properties=["Sorted"])


def datetext(years, months, days, hours, minutes, seconds, tails):
    return dict(module="MCDateText", constants=dict(YearParts=set(years), MonthParts=set(months), DayParts=set(days), HourParts=set(hours),
                                                    MinuteParts=set(minutes), SecondParts=set(seconds), TailParts=set(tails)),
                invariants="ByParts LooseRare Agreeing OneText Emitted".split())


ZONES = ["Europe/Berlin", "America/New_York", "Pacific/Auckland", "Australia/Lord_Howe"]


def zone(first, last, around, step):
    return dict(module="MCZone", constants=dict(ZoneNames=set(ZONES), FromYear=first, ToYear=last, Before=around, After=around, StepMin=step),
                invariants="Reads Counted ThereAndBack SameRule AtChange Emitted".split(), properties=["Jumps"])


def dur(numbers, wild, parts):
    return dict(module="MCDur", constants=dict(Numbers=set(numbers), Fractions={"5", "05", "120", "001"}, Wild=wild, MaxParts=parts),
                invariants="Accepts RejectsUnfinished WildOnes LongOnes Rewritten Signed Emitted".split())


def types(texts):
    return dict(module="MCTypes", constants=dict(OtherNames={"X-A", "SUMMARYX", "summary", "STREET-ADDRESS", "VALUE", "DATE", "X-WR-TIMEZONE", "REFRESH-INTERVAL"},
                                                 OtherTypes={"X-T", "text", "TEXTS", "CAL_ADDRESS", "Date"}, Texts=set(texts)),
                invariants="Decided SameRule NeverTwo Emitted".split())


def param(alphabet, n, k, keys=("X-A", "SUMMARY")):
    return dict(module="MCParam", constants=dict(Alphabet=set(alphabet), MaxLen=n, MaxParams=k, Keys_=set(keys)),
                invariants="ReadBack QuotesNeeded Emitted".split())


def transport(which, folds, blanks, marks=(32, 9)):
    return dict(module="MCTransport", constants=dict(Which=which, MaxFolds=folds, MaxBlanks=blanks, Marks=set(marks)),
                invariants="Transparent Prefix_ Emitted".split())


def trip(steps, writing):
    return dict(module="MCTrip", constants=dict(MaxSteps=steps, Writing=writing), invariants="WellWritten Arrives Sharp Timely Emitted".split())


QUOTING = [58, 59, 44, 61, 32, 97, 92]
YEARS = [0, 1900, 2000, 2023, 2024, 9999]
PARTS = (["2024", "1900", "0000", "9999"], ["00", "01", "02", "04", "12", "13"], ["00", "01", "28", "29", "30", "31", "32"], ["00", "23", "24", "99"],
         ["00", "59", "60"], ["00", "59", "60", "61"], ["Z", "T", "0", "z"])
DURNUM = ["0", "1", "07", "59", "100"]


def words(s):
    return set(s.split())


def plan(prop, tier):
    q = tier == "quick"

    def n(quick, thorough):
        return quick if q else thorough

    C = corpus
    def big(quick, kinds):
        return ("big_cases", n(quick, quick * 25), dict(kinds=kinds.split(), top=n(300, 600)))

    def huge(quick, kinds):
        return ("huge_cases", n(quick, quick * 8), dict(kinds=kinds.split()))

    dates_focus = ["date", "due", "stamp", "completed", "allday", "append", "new"]
    typed_focus = ["text", "location", "venue", "num", "percent", "class", "status", "address", "append", "new", "into"]
    alarm_focus = ["alarm", "durrep", "child", "new", "append", "into"]
    if prop == "C01":
        return dict(classes=words("deepback deepall pround mround wline wvalue wparams inevent incal rewrite lwire rereadcal roundtrip roundeq transport cwrite"),
                    models=[trip(n(1, 2), True), trip(n(2, 3), False), store("cal", n(2, 3)), store("date", n(1, 2)), store("typed", n(1, 2)), store("alarm", n(1, 2)), programs(n(50, 1000), n(20, 30))],
                    gens=[huge(3, "hextend htext hparam"), ("alike_cases", n(150, 3000), {}), ("deep_cases", n(60, 800), {}), ("word_programs", None, {}), ("every_programs", None, {}), ("word_streams", None, {}), ("trip_cases", n(900, 25000), {}), ("cal_cases", n(350, 10000), dict(reread=0.9, cget=0.1)),
                          ("prop_cases", n(1500, 40000), {}), ("read_cases", n(300, 10000), dict(broken=0.0, cut=0.0)),
                          big(50, "repeats props comps children calprops value paramvalue params marks marks")],
                    corpus=C.TRIPS + C.META + C.VALUES + C.PARAMS + C.LONGS)
    if prop == "C02":
        return dict(classes=words("wvalue pread pround mround lvalue lread vread vwrite rewrite lmodel roundtrip decoded"),
                    models=[codec(ESC, n(4, 5), ["SUMMARY"]), codec([92, 110, 44], n(5, 8), ["COMMENT"]), codec(ESC, n(3, 4), ["X-A", "URL"]), decode(DEC, n(4, 6)),
                            decode(DEC, n(3, 5), ["URL:", "SUMMARY;VALUE=URI:", "DESCRIPTION;LANGUAGE=de:"])],
                    gens=[huge(6, "htext hraw hline"), ("word_props", None, {}), ("every_props", None, {}), ("prop_cases", n(2500, 40000), {}), ("line_cases", n(2500, 40000), {}), ("vt_cases", n(500, 4000), {}),
                          ("trip_cases", n(150, 4000), {}), ("text_cases", n(800, 20000), {}), big(160, "value linevalue marks marks marks")],
                    corpus=C.VALUES + C.LINES + C.LONGS[:12])
    if prop == "C03":
        return dict(classes=words("fold wline wvalue serwell cwell print reprint unf total inevent incal"),
                    models=[fold(WIDTHS, n(3, 4), [60, 64, 66, 140] if q else list(range(56, 70)) + [138, 139, 140, 141, 214], [0, 3]),
                            fold([97, 8195, 32], n(3, 5), [62, 63, 64, 65, 66, 67], [1])],
                    gens=[huge(6, "htext hraw hparam hline"), ("prop_cases", n(3000, 60000), {}), ("build_cases", n(200, 5000), dict(get=0.0, ser=0.3)),
                          ("cal_cases", n(150, 4000), dict(cget=0.0, cwrite=0.3)), ("read_cases", n(200, 5000), dict(broken=0.0, cut=0.0)),
                          ("long_cases", n(300, 6000), {}), ("tree_cases", n(80, 2000), {}), big(80, "value paramvalue name linevalue params treebig marks marks")],
                    corpus=C.LONGS + C.VALUES + C.PARAMS)
    if prop == "C04":
        return dict(classes=words("unf tree transport total"),
                    models=[unfold(FOLDS, n(5, 7)), unfold([13, 10, 32], n(7, 9), True), transport("tiny", n(1, 2), 1), transport("nested", n(1, 2), n(0, 1)),
                            transport("text", 1, 0), transport("two", n(1, 2), n(0, 1))],
                    gens=[huge(4, "hstream hroots"), ("every_unfold", None, {}), ("every_read", None, {}), ("word_streams", None, {}), ("unfold_cases", n(2500, 40000), {}), ("read_cases", n(800, 20000), dict(broken=0.05, cut=0.0, full=0.0)),
                          ("cal_cases", n(250, 6000), dict(reread=0.9, cget=0.0)), big(50, "linevalue roots deep marks marks")],
                    corpus=C.READS + C.TRIPS)
    if prop == "C05":
        return dict(classes=words("kept ways wparams pread pround mround lparams lvalue lmodel param mparam lread roundtrip"),
                    models=[param(QUOTING, n(2, 3), 2), param([58, 59, 97], n(2, 2), 3), line(LEX, n(4, 6), "X", True), line([";", "=", '"', ":", "A"], n(5, 7), "X;P", False)],
                    gens=[huge(6, "hparam hparam hpparams hparams"), ("word_props", None, {}), ("every_props", None, {}), ("prop_cases", n(2500, 40000), {}), ("line_cases", n(2500, 40000), {}), ("param_cases", n(2000, 30000), {}), ("trip_cases", n(150, 4000), {}),
                          big(200, "params paramvalue lineparams marks marks marks")],
                    corpus=C.PARAMS + C.LINES)
    if prop == "C06":
        return dict(classes=words("deepwrite wline inevent incal ser serwell seruid cwrite cwell cwriteall rewrite printed everywhere"),
                    models=[trip(n(1, 2), True), trip(n(2, 3), False), codec([10, 92, 58, 66, 78], n(4, 5), ["DESCRIPTION"])],
                    gens=[huge(4, "hextend htext hraw hpparams"), ("alike_cases", n(150, 3000), {}), ("deep_cases", n(60, 800), {}), ("word_programs", None, {}), ("every_programs", None, {}), ("word_props", None, {}), ("build_cases", n(400, 10000), dict(get=0.0, ser=0.25)), ("cal_cases", n(400, 10000), dict(cget=0.0, cwrite=0.25)),
                          ("prop_cases", n(1200, 20000), {}), ("read_cases", n(250, 6000), dict(broken=0.0, cut=0.0)), ("trip_cases", n(200, 5000), {}), ("print_cases", n(100, 2000), {}), ("uids_cases", n(40, 800), {}),
                          big(50, "repeats props comps children calprops value marks")],
                    corpus=C.VALUES + C.PARAMS + C.TRIPS + C.META)
    if prop == "C07":
        return dict(classes=words("deepread pread lread linx tree find"),
                    models=[reader(LINES, n(4, 5), 3), reader(CALLINES, n(4, 5), 2), line(LEX, n(4, 6))],
                    gens=[("name_streams", None, {}), huge(6, "hroots hcal hsame hline hparams hstream"), ("deep_cases", n(60, 800), {}), ("word_streams", None, {}), ("every_read", None, {}), ("word_props", None, {}), ("read_cases", n(1200, 30000), dict(broken=0.1)), ("line_cases", n(2000, 40000), {}), ("prop_cases", n(500, 10000), {}),
                          ("read_cases", n(60, 2000), dict(broken=0.0, cut=0.0, full=0.0, depth=9, wide=0.7)), big(50, "deep roots same lineparams linevalue name marks marks")],
                    corpus=C.READS + C.LINES, probes=[("quoted-list", quoted_list, lost_line)])
    if prop == "C08":
        return dict(classes=words("total ends cut tree"),
                    models=[reader(LINES, n(4, 5), 2), reader(["BEGIN:A", "END:A", "END:B", "BEGIN:", "END:", "x y", "Q", "end:A"], n(4, 5), 2), line(LEX, n(4, 6)),
                            decode(DEC, n(3, 5))],
                    gens=[("name_streams", None, {}), huge(4, "hstream hline hroots hparams"), ("deep_cases", n(60, 800), {}), ("word_streams", None, {}), ("read_cases", n(1500, 30000), dict(broken=0.6, cut=0.4)), ("cut_cases", n(40, 800), {}), ("line_cases", n(2500, 40000), dict(odd=0.4)),
                          ("param_cases", n(800, 10000), {}), ("unfold_cases", n(500, 10000), {}), ("dtraw_cases", n(500, 10000), {}), ("trigraw_cases", n(500, 10000), {}),
                          ("noise_cases", n(1200, 30000), {}), ("tree_cases", n(60, 1500), dict(legal=0.3)), big(45, "deep roots linevalue lineparams name marks marks marks")],
                    corpus=C.READS + C.LINES + C.TRIGS + C.deep(), probes=[("deep-nesting", deep, crashed)])
    if prop == "C09":
        return dict(classes=words("deepmodel deepall lmodel root convert convert2 single2"),
                    models=[reader(CALLINES, n(4, 5), 3), reader(["BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VTODO", "END:VTODO", "COMMENT:1", "COMMENT:2", "SUMMARY:s"], n(4, 6), 4)],
                    gens=[("name_streams", None, {}), huge(4, "hcal hsame hroots hsame"), ("deep_cases", n(60, 800), {}), ("word_streams", None, {}), ("read_cases", n(1500, 30000), dict(broken=0.03, cut=0.0)), ("line_cases", n(1000, 20000), {}),
                          ("model_cases", n(600, 15000), {}), ("tree_cases", n(120, 3000), {}), big(50, "same roots deep treebig lineparams marks")],
                    corpus=C.READS + C.LINES)
    if prop == "C10":
        return dict(classes=words("kept ways post postdate posttyped posttrig getmap gettext total"),
                    models=[store("map", n(3, 4)), store("typed", n(2, 3)), store("date", n(2, 3)), store("alarm", n(2, 3)), programs(n(50, 1500), n(20, 30))],
                    gens=[("alike_cases", n(150, 3000), {}), ("word_programs", None, {}), ("every_programs", None, {}), ("build_cases", n(900, 20000), dict(legal=0.9, get=0.3)), ("prop_cases", n(800, 10000), {}), ("build_cases", n(60, 1500), dict(steps=(30, 60), get=0.1)),
                          big(30, "repeats props children params")],
                    corpus=C.DATES)
    if prop == "C11":
        return dict(classes=words("cpost cpostmeta cget"),
                    models=[store("cal", n(3, 4)), store("meta", n(2, 3)), programs(n(50, 1500), n(20, 30))],
                    gens=[huge(2, "hextend"), ("alike_cases", n(150, 3000), {}), ("word_programs", None, {}), ("every_programs", None, {}), ("cal_cases", n(900, 20000), dict(legal=0.9)), ("cal_cases", n(80, 2000), dict(steps=(30, 60), comp=0.2, cget=0.1)), big(30, "comps calprops")],
                    corpus=C.META)
    if prop == "C12":
        return dict(classes=words("dtprop dtback dtnaive dtconv dtstr dtwire dtread dtparsed dtraw dtrawparsed getdate postdate roundtrip"),
                    models=[date(YEARS if q else range(1995, 2045), not q), datetext(*PARTS), store("date", n(2, 3))],
                    gens=[("dt_cases", n(2500, 60000), {}), ("dtraw_cases", n(3000, 60000), {}), ("build_cases", n(300, 6000), dict(get=0.4, focus=dates_focus, legal=0.95)),
                          ("trip_cases", n(250, 6000), dict(focus=dates_focus))],
                    corpus=C.DATES)
    if prop == "C13":
        return dict(classes=words("gettyped gettext posttyped roundtrip"),
                    models=[store("typed", 3), programs(n(40, 1000), n(20, 30))] + ([] if q else [store("typed", 4)]),
                    gens=[("word_programs", None, {}), ("every_programs", None, {}), ("build_cases", n(800, 20000), dict(get=0.5, focus=typed_focus, legal=0.95)), ("trip_cases", n(500, 10000), dict(focus=typed_focus))],
                    corpus=C.typed())
    if prop == "C14":
        return dict(classes=words("trig trigprop trigback alarm trigwire trigread trigraw gettrig posttrig roundtrip"),
                    models=[dur(DURNUM, False, 4), dur(["1"], True, n(3, 4)), store("alarm", n(2, 3))],
                    gens=[("trig_cases", n(1500, 30000), {}), ("trigraw_cases", n(2500, 40000), {}), ("build_cases", n(300, 6000), dict(get=0.4, focus=alarm_focus)),
                          ("trip_cases", n(300, 6000), dict(focus=alarm_focus))],
                    corpus=C.TRIGS, probes=[("long-duration", long_trigger, trigger_unread)])
    if prop == "C15":
        return dict(classes=words("cmeta cpostmeta roundtrip"),
                    models=[store("meta", n(2, 3)), programs(n(40, 1000), n(20, 30))],
                    gens=[("word_programs", None, {}), ("every_programs", None, {}), ("cal_cases", n(900, 20000), dict(focus=["cset", "ttl", "cprop"], comp=0.1, cget=0.5, reread=0.6)), ("meta_cases", n(900, 20000), {})],
                    corpus=C.META, probes=[("long-duration", long_ttl, ttl_unread)])
    if prop == "C16":
        return dict(classes=words("deepprint print reread reprint printed"),
                    models=[reader(LINES, n(4, 5), n(4, 5)), line(LEX, n(4, 6)), reader(["BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:A", "END:A", "N;P=\"a:b\";Q=:c", "SUMMARY:\\n\\,\\\\"], 4, 4)],
                    gens=[huge(4, "hline hroots hparams hline"), ("deep_cases", n(60, 800), {}), ("word_streams", None, {}), ("every_read", None, {}), ("word_props", None, {}), ("every_props", None, {}), ("read_cases", n(1500, 30000), dict(broken=0.03, cut=0.0)), ("line_cases", n(2500, 40000), dict(odd=0.02)), ("prop_cases", n(1000, 10000), {}),
                          ("tree_cases", n(300, 8000), dict(legal=0.95)), ("print_cases", n(80, 2000), {}), big(60, "treebig deep same lineparams linevalue name roots marks marks marks")],
                    corpus=C.READS + C.LINES + C.LONGS + C.PARAMS)
    if prop == "C17":
        return dict(classes=words("json ljson"),
                    models=[reader(LINES, n(4, 5), n(4, 5)), line(LEX, n(4, 5), "X", True)],
                    gens=[huge(4, "hline hroots hparams hstream"), ("word_streams", None, {}), ("word_props", None, {}), ("every_props", None, {}), ("read_cases", n(1500, 30000), dict(broken=0.05, cut=0.05)), ("line_cases", n(2500, 40000), {}), ("param_cases", n(2000, 20000), {}),
                          ("tree_cases", n(250, 6000), dict(legal=0.6)), big(50, "treebig deep same lineparams linevalue marks marks")],
                    corpus=C.READS + C.LINES)
    if prop == "C18":
        return dict(classes=words("zknown zutc zmake zinst dtutc"),
                    models=[zone(2011, 2029, 120, n(30, 5)), date([2024] if q else range(2010, 2031), True)],
                    gens=[("zone_cases", n(4500, 60000), {}), ("any_zone_cases", n(4500, 100000), {}), ("dt_cases", n(1500, 30000), {})])
    if prop == "C19":
        return dict(classes=words("vtype vwrite vread vconv wvalue lvalue pread lread"),
                    models=[types(["a,b;c\\d", "20240229", "\\n"])],
                    gens=[("word_props", None, {}), ("every_props", None, {}), ("vt_all", None, {}), ("vt_cases", n(2500, 30000), {}), ("prop_cases", n(1000, 10000), {}), ("line_cases", n(1000, 10000), {})],
                    corpus=C.VALUES + C.LINES)
    if prop == "C20":
        return dict(classes=words("limited deepall agree single single2 linsame linx lagree lwire lmodel serall pure cwriteall inevent incal rewrite convert2 ways ptext printed everywhere"),
                    models=[reader(LINES, n(3, 4), n(3, 4)), reader(CALLINES, n(3, 4), n(3, 4)), trip(n(2, 3), False), line(LEX, n(3, 5))],
                    gens=[("name_streams", None, {}), ("every_print", None, {}), huge(5, "hextend htext hline hcal hparam"), ("alike_cases", n(150, 3000), {}), ("deep_cases", n(60, 800), {}), ("word_streams", None, {}), ("word_programs", None, {}), ("word_props", None, {}), ("read_cases", n(700, 15000), dict(broken=0.3)), ("line_cases", n(1500, 20000), {}), ("prop_cases", n(1000, 15000), {}),
                          ("build_cases", n(250, 6000), dict(get=0.1, ser=0.3)), ("cal_cases", n(250, 6000), dict(cget=0.1, cwrite=0.3)),
                          ("entry_cases", n(200, 4000), {}), ("broken_cases", n(150, 3000), {}), ("uids_cases", n(30, 600), {}), ("text_cases", n(300, 8000), {}), ("print_cases", n(120, 3000), {}), ("tree_cases", n(80, 2000), {}),
                          big(50, "comps treebig params roots marks marks")],
                    corpus=C.READS + C.LINES + C.TRIPS)
    raise KeyError(prop)
