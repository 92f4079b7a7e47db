"""Cases that once failed (one per repaired defect and more), and others that must never be missing."""
from words import around

T = lambda s: [ord(c) for c in s]


def prop(k, v, *p):
    return {"k": "prop", "c": {"k": T(k), "v": T(v), "p": [[T(a), T(b)] for a, b in p]}}


def line(t):
    return {"k": "line", "c": {"text": T(t)}}


def read(t, full=1):
    return {"k": "read", "c": {"text": T(t.replace("\n", "\r\n")), "full": full}}


def raw(t, full=1):
    return {"k": "read", "c": {"text": T(t), "full": full}}


def trig(v, *p):
    return {"k": "trigraw", "c": {"k": T("TRIGGER"), "v": T(v), "p": [[T(a), T(b)] for a, b in p]}}


def prog(*ops):
    return {"k": "prog", "c": {"ops": list(ops)}}


def P(k, v, *p):
    return {"k": T(k), "v": T(v), "p": [[T(a), T(b)] for a, b in p]}


TR = {"lf": 0, "tab": 0, "width": 0, "blank": 0}


def new(r, kind="event"):
    return {"op": "new", "r": r, "kind": kind}


def trip(*ops, r=(1,), getters=True):
    """build, push the registers, write, read, look"""
    more = [{"op": "cnew", "c": 1, "via": "new"}] + [{"op": "push", "c": 1, "r": i, "via": "push"} for i in r]
    more += [{"op": "cwrite", "c": 1}, {"op": "creread", "c": 1, "to": 2, "tr": TR}]
    if getters:
        for j, i in enumerate(r):
            more += [{"op": "take", "c": 2, "i": j + 1, "to": 20 + j}, {"op": "get", "r": 20 + j, "keys": [T("SUMMARY"), T("X-A")]}]
    return prog(*ops, *more)


LONG = ["a" * 70, "é" * 60, "中" * 50, "😀" * 40, "a" + "é" * 37, "ab" + "中" * 25, "abc" + "😀" * 19, " " * 80, "x" * 66 + "\u3000" * 5,
        "\u00a0" * 75, "a" * 73 + "  b", ("word " * 40).strip(), "a" * 5000, "中" * 3000, "\u2003" * 300, "é " * 200]

VALUES = [prop("SUMMARY", v) for v in
          ["\\", "\\\\", "\\n", "\\\\n", "\\\\\\n", "\n", "\\\n", "a\\,b", ",", ";", ":", "\\:", "\\;", "\\N", "C:\\new\\Notes", "", " ", "\t", "\r", "\u2028", "\u0085",
           "END:VEVENT", "\nEND:VEVENT\nEND:VCALENDAR\n", "a\nBEGIN:VEVENT\nUID:1", "\"q\"", "100%", "\\\\,\\\\;", "\\\\\\\\n", "a\\"]]
LONGS = [prop(k, v) for k in ("SUMMARY", "X-A", "DESCRIPTION") for v in LONG]
# every length around the limits of the first and of the following lines
LONGS += [prop("X-A", "b" * n) for n in list(range(68, 76)) + list(range(142, 150)) + list(range(216, 224))]
LONGS += [prop("X-A", "b" * n + c + "b" * 5) for n in range(66, 74) for c in ("é", "中", "😀", " ", "\u3000")]
PARAMS = [prop("X-A", "v", ("P", v)) for v in
          ["", "a", "a:b", "a;b", "a,b", "a=b", ":", ";", ",", " ", "a b", "\\n", "^n", "'", "é;中", "mailto:x@y", "x" * 90, "x" * 60 + ":" + "y" * 60]]
PARAMS += [prop("SUMMARY", "v:w", ("P", "a:b"), ("Q", "c;d"), ("P", "e")), prop("X-A", "v", ("A", ""), ("B", ""), ("C", "x"))]

LINES = [line(t) for t in
         ["X:", "X", "X;P:", "X;P=:", "X;P=\"\":v", "X;P=\"\";Q=1:v", "X;P=a;Q:v", "X;P=\"a:b;c,d\":e:f", "X;P=a b:c", "X;P=a\\,b:c", "X: v ", "ENDING:x",
          "BEGINNER:x", "END-X:1", "BEGIN.Y:1", "ENDDATE;P=1:x", "X;P=a=b:c", "SUMMARY:a\\nb\\Nc\\,\\;\\:\\\\\\x\\", "SUMMARY;VALUE=URI:a\\nb", "X-A;VALUE=TEXT:a\\nb",
          "X;p=1;P=2:v", "X;P=é:中", "X;P=\"é:中\":😀", "X.Y/Z_W-1:v", "SUMMARY;ALTREP=\"http://x/y;z\";LANGUAGE=de:T", "URL:http://a,b;c\\n", "x;value=text:a\\nb",
          "X-A;VALUE=\"TEXT\":a\\,b", "DTSTART;VALUE=DATE:20240229"]]

READS = [read(t) for t in [
    "", "\n", "BEGIN:VCALENDAR\nEND:VCALENDAR\n", "BEGIN:A\nEND:A\nBEGIN:B\nX:1\nEND:B\n", "BEGIN:VCALENDAR\nX:1\nBEGIN:VEVENT\nEND:VEVENT\nEND:VCALENDAR\n",
    "BEGIN:VEVENT\nSUMMARY:a\nEND:VTODO\n", "BEGIN:VEVENT\nSUMMARY:a\nEND:VEVENTS\n", "BEGIN:VEVENTS\nEND:VEVENT\n", "BEGIN:A\nBEGIN:B\nEND:A\nEND:B\n",
    "BEGIN:A\nBEGIN:A\nEND:A\n", "BEGIN:A\nEND:A\nBEGIN:A\nX:1\n", "BEGIN:A\nEND:A\nBEGIN:B\nEND:C\n", "BEGIN:A\nENDING:1\nBEGINNING:2\nEND:A\n", "END:A\n",
    "BEGIN:A\nX\nY:\nEND:A\n", "begin:A\nbEgIn:b\nend:b\nEnD:A\n", "BEGIN:A\nX:1\n 2\n\t3\nEND:A\n", "BEGIN:A\n\n\nX:1\n\nEND:A\n\n", "\n\nBEGIN:A\nEND:A\n",
    "BEGIN:VEVENT\nCOMMENT:1\nCOMMENT:2\nSUMMARY:3\nSUMMARY:4\nATTENDEE;CN=a:5\nATTENDEE;CN=b:6\nEND:VEVENT\n",
    "BEGIN:VCALENDAR\nNAME:a\\,b\nNAME:c\nBEGIN:VVENUE\nNAME:x\nEND:VVENUE\nBEGIN:VTODO\nBEGIN:VALARM\nTRIGGER:-PT5M\nEND:VALARM\nEND:VTODO\nBEGIN:VJOURNAL\nEND:VJOURNAL\nEND:VCALENDAR\n",
    "BEGIN:VEVENT\nX-A:1\nX-A:2\nRELATED-TO:a\nRELATED-TO:b\nREQUEST-STATUS:2.0\nREQUEST-STATUS:3.0\nEND:VEVENT\n",
    "BEGIN:A\n" + "".join("P%d:%d\n" % (i, i) for i in range(60)) + "END:A\n",
    "".join("BEGIN:L%d\n" % i for i in range(40)) + "".join("END:L%d\n" % (39 - i) for i in range(40)),
    "".join("BEGIN:R%d\nX:%d\nEND:R%d\n" % (i, i, i) for i in range(30)),
    "BEGIN:VEVENT\nDESCRIPTION:" + "long text\\, " * 30 + "\nEND:VEVENT\n",
]]
READS += [raw(t) for t in ["BEGIN:A\nX:1\n 2\nEND:A\n", "BEGIN:A\nX:1\nEND:A", "BEGIN:A\r\nX:1\r\nEND:A", "BEGIN:A\r\nX:1\r\n \r\n 2\r\nEND:A\r\n",
                           "\ufeffBEGIN:A\r\nEND:A\r\n", "BEGIN:A\r\n", "BEGIN:", "BEGIN:A\r\nEND:", "BEGIN:A\r\nEND:A\r\nX:1\r\n", "X", ":", ";", "\r", "\\", "\"", "BEGIN:A\r\nX;P=\"a\r\nEND:A\r\n"]]

STAMP = {"f": "utc", "y": 2001, "m": 2, "d": 3, "H": 4, "M": 5, "S": 6}
DATES = [prog(new(1), {"op": "stamp", "r": 1, "f": f, "v": STAMP}, {"op": "get", "r": 1, "keys": []}) for f in ("timestamp", "created", "last_modified")]
DATES += [prog(new(1, "todo"), {"op": "stamp", "r": 1, "f": "completed", "v": STAMP}, {"op": "get", "r": 1, "keys": []})]

TRIGS = [trig(v, *p) for v in ["-PT15M", "PT15M", "+PT15M", "P1W", "-P2W", "P1DT2H3M4S", "-P1D", "PT0S", "P0D", "PT1H", "P", "PT", "-P", "15M", "", "P1W2D", "PT1M1H", "P1H", "T1H", "PT1D",
                               "20240101T000000Z", "P99999999999999999999W", "PT99999999999999999999S", "P1Y", "PT1.5S", "--PT1S", "P-1D", "PT1S ", " PT1S", "PT15X", "PT1H30", "P1D ", "P1W1", "PT4294967295S", "PT4294967296S", "P4294967295W", "PT5000000000S", "-PT99999999999S",
                           "P99999999999D", "PT0.5S", "PT1,5S", "PT0.123456789S", "PT1.99999999999S", "PT15M\u00e9", "PT15M;X", "PT15M,PT5M", "P0001-02-03T04:05:06"]
         for p in [(), (("RELATED", "START"),), (("RELATED", "END"),)]]
TRIGS += [trig(v, *p) for v in ["20240229T235959Z", "20240229T235959", "20230229T235959Z", "PT15M", ""]
          for p in [(("VALUE", "DATE-TIME"),), (("VALUE", "DATE-TIME"), ("TZID", "Europe/Berlin")), (("VALUE", "DURATION"),), (("VALUE", "DATE"),), (("VALUE", "DATE-TIME"), ("RELATED", "END"))]]


def dur(neg, s):
    return {"neg": neg, "digits": T(str(s))}


META = [prog({"op": "cnew", "c": 1, "via": v}, {"op": "cset", "c": 1, "f": f, "v": T(x)}, {"op": "cget", "c": 1, "keys": []}, {"op": "cwrite", "c": 1},
             {"op": "creread", "c": 1, "to": 2, "tr": TR}, {"op": "cget", "c": 2, "keys": []})
        for v in ("new", "empty") for f in ("name", "description", "timezone") for x in ("a", "a,b;c\\d", "Europe/Berlin", "", "é" * 60)]
META += [prog({"op": "cnew", "c": 1, "via": "new"}, {"op": "cset", "c": 1, "f": f, "v": T("a\nEND:VCALENDAR\nb")}, {"op": "cget", "c": 1, "keys": []}, {"op": "cwrite", "c": 1},
              {"op": "creread", "c": 1, "to": 2, "tr": TR}, {"op": "cget", "c": 2, "keys": []}) for f in ("name", "description")]
META += [prog({"op": "cnew", "c": 1, "via": "new"}, {"op": "ttl", "c": 1, "dur": dur(False, s)}, {"op": "cget", "c": 1, "keys": []},
              {"op": "creread", "c": 1, "to": 2, "tr": TR}, {"op": "cget", "c": 2, "keys": []}) for s in (0, 1, 59, 60, 3600, 86400, 604800, 90061, 31536000, 4294967295)]
META += [prog({"op": "cnew", "c": 1, "via": "new"}, *[{"op": "cprop", "c": 1, "p": P(k, v)} for k in ks], {"op": "cget", "c": 1, "keys": []})
         for ks in (["REFRESH-INTERVAL"], ["X-PUBLISHED-TTL"]) for v in ["PT1H", "P1W", "P1DT1H", "PT1HX", "PT99999999999S", "", "1H", "P", "PT1H ", "PT1M30S", "PT0S", "soon"]]
META += [prog({"op": "cnew", "c": 1, "via": "new"}, {"op": "cprop", "c": 1, "p": P(k, v)}, {"op": "cget", "c": 1, "keys": [T(k)]},
              {"op": "cprop", "c": 1, "p": P(k2, v2)}, {"op": "cget", "c": 1, "keys": [T(k), T(k2)]})
         for k, v, k2, v2 in [("X-WR-CALNAME", "w", "NAME", "n"), ("X-WR-CALDESC", "w", "DESCRIPTION", "n"), ("X-WR-TIMEZONE", "w", "TIMEZONE-ID", "n"),
                              ("X-PUBLISHED-TTL", "PT1H", "REFRESH-INTERVAL", "P1D"), ("X-PUBLISHED-TTL", "PT1H", "REFRESH-INTERVAL", "soon"), ("NAME", "", "X-WR-CALNAME", "w"),
                              ("NAME", "a", "NAME", "b"), ("NAME", "é", "X-WR-TIMEZONE", "z")]]

TRIPS = [
    trip(new(1), {"op": "append", "r": 1, "p": P("SUMMARY", v), "via": "append"}, {"op": "multi", "r": 1, "p": P("COMMENT", v, ("P", "a;b")), "via": "append"})
    for v in ["a,b;c\\d", "\nEND:VEVENT", "é" * 80, "", "\\n", "BEGIN:VEVENT"]]
TRIPS += [trip(new(1), new(2, "todo"), new(3, "venue"), {"op": "child", "r": 1, "from": 2}, {"op": "child", "r": 3, "from": 1}, r=(1, 2, 3))]


def typed():
    """every typed getter on every interesting raw value, and every setter on every interesting value"""
    out = []
    raws = {
        "CLASS": ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "public", "Private", "PUBLIC ", " PUBLIC", "", "X-SECRET", "PUBLICATION", "PUB"],
        "STATUS": ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL", "CANCELED", "tentative", "", "NEEDS_ACTION",
                   "IN PROCESS", "CONFIRMED ", "COMPLETE"],
        "PRIORITY": ["0", "1", "5", "9", "10", "11", "255", "256", "65536", "4294967295", "4294967296", "18446744073709551616", "-1", "-0", "", "x", "1x", "1.0", " 1",
                     "1 ", "0x1", "1e1", "007", "00000000000000001", "1,2"],
        "SEQUENCE": ["0", "1", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "-1", "", "x", "1.0", "00", "9" * 30],
        "PERCENT-COMPLETE": ["0", "1", "99", "100", "101", "200", "255", "256", "300", "1000", "-1", "", "50%", "x", "0050", "00000100"],
        "SUMMARY": ["", "a", "a,b"], "DESCRIPTION": ["", "a"], "LOCATION": ["", "here"], "UID": ["", "u"], "URL": ["", "http://a"],
        "STREET-ADDRESS": ["", "1"], "EXTENDED-ADDRESS": ["", "2"], "LOCALITY": ["", "3"], "REGION": ["", "4"], "COUNTRY": ["", "5"], "POSTAL-CODE": ["", "6"],
    }
    for kind in ("event", "todo", "venue"):
        ops, i = [], 0
        for k, vs in raws.items():
            for v in vs:
                ops = [new(1, kind), {"op": "append", "r": 1, "p": P(k, v), "via": "append"}, {"op": "get", "r": 1, "keys": [T(k)]}]
                out.append(prog(*ops))
    def numbers():
        for b in (0, 1, 5, 9, 10, 11, 100, 101, 255, 256, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5):
            b = str(b)
            yield from (b, "-" + b, "+" + b, "++" + b, "+-" + b, " " + b, b + " ", b + "\n", "\t" + b, "00" + b, b + ".", b + ".0", b + ",0", "0x" + b, b + "e0", b + "%", b + "_", "_" + b,
                        "".join(chr(0xff10 + int(c)) for c in b), "".join(chr(0x660 + int(c)) for c in b), b + ";" + b, '"' + b + '"')
    for kind in ("event", "todo", "venue"):
        near = [("CLASS", v) for w in ("PUBLIC", "PRIVATE", "CONFIDENTIAL") for v in around(w)]
        near += [("STATUS", v) for w in ("TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS") for v in around(w)]
        near += [(k, v) for k in ("PRIORITY", "SEQUENCE", "PERCENT-COMPLETE") for v in numbers()]
        near = [(k, v) for k, v in near if kind == "todo" or k != "PERCENT-COMPLETE"]
        for a in range(0, len(near), 8):
            out.append(prog(new(1, kind), *[y for k, v in near[a:a + 8] for y in ({"op": "append", "r": 1, "p": P(k, v), "via": "append"}, {"op": "get", "r": 1, "keys": [T(k)]})]))
    get = {"op": "get", "r": 1, "keys": [T("CLASS"), T("STATUS")]}
    for v in ("PUBLIC", "PRIVATE", "CONFIDENTIAL"):
        out += [trip(new(1, k), {"op": "class", "r": 1, "v": v}, get) for k in ("event", "todo", "venue")]
    out += [trip(new(1, "event"), {"op": "status", "r": 1, "v": v}, get) for v in ("TENTATIVE", "CONFIRMED", "CANCELLED")]
    out += [trip(new(1, "todo"), {"op": "status", "r": 1, "v": v}, get) for v in ("NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED")]
    out += [trip(new(1, "event"), {"op": "num", "r": 1, "f": f, "v": T(str(v))}, get) for f in ("priority", "sequence")
            for v in [0, 1, 8, 9, 10, 11, 12, 99, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1]]
    out += [prog(new(1, "todo"), *[y for v in range(a, min(a + 16, 256)) for y in ({"op": "num", "r": 1, "f": "percent", "v": T(str(v))}, get)]) for a in range(0, 256, 16)]
    out += [prog(new(1, "event"), *[y for v in range(a, a + 16) for y in ({"op": "num", "r": 1, "f": "priority", "v": T(str(v))}, get)]) for a in (0, 16)]
    fields = ["summary", "description", "uid", "url", "location"]
    out += [trip(new(1, "event"), {"op": "text", "r": 1, "f": f, "v": T(v)}, get) for f in fields for v in ("a", "a,b;c\\d:e", "", "é" * 50, "2024")]
    out += [trip(new(1, "todo"), *[{"op": "text", "r": 1, "f": f, "v": T(f)} for f in fields], get)]
    address = ["street_address", "extended_address", "locality", "region", "country", "postal_code"]
    out += [trip(new(1, "venue"), {"op": "text", "r": 1, "f": f, "v": T(v)}, get) for f in address for v in ("a", "a,b;c\\d:e", "", "é" * 50)]
    out += [trip(new(1, "venue"), *[{"op": "text", "r": 1, "f": f, "v": T(f)} for f in address], get)]
    out += [trip(new(1, "event"), {"op": "venue", "r": 1, "v": T(v), "uid": T(u)}, get) for v in ("Hall", "a,b") for u in ("v-1", "a:b", "")]
    return out


def deep():
    return [{"k": "deep", "c": {"name": T(nm), "depth": d, "ends": e}} for nm in ("A", "VEVENT", "X-LONG-NAME") for d, e in
            [(0, 0), (1, 1), (2, 2), (17, 17), (64, 64), (65, 65), (128, 128), (129, 129), (200, 200), (1, 0), (2, 1), (64, 63), (200, 199), (3, 4), (0, 1)]]
