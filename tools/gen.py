"""Generators of cases for the harness.  Every generator takes a random.Random and yields cases without ids."""
import functools
import json
import random

import words

T = lambda s: [ord(c) for c in s]

TYPES = ["BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR",
         "TEXT", "TIME", "URI", "UTC-OFFSET"]
TEXT_NAMES = ["CALSCALE", "METHOD", "PRODID", "VERSION", "NAME", "X-WR-CALNAME", "X-WR-CALDESC", "CATEGORIES", "CLASS",
              "COMMENT", "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "SUMMARY", "TRANSP", "TZID", "TZNAME",
              "CONTACT", "RELATED-TO", "UID", "ACTION", "REQUEST-STATUS"]
OTHER_NAMES = ["PERCENT-COMPLETE", "PRIORITY", "REPEAT", "SEQUENCE", "COMPLETED", "DTEND", "DUE", "DTSTART",
               "RECURRENCE-ID", "EXDATE", "RDATE", "CREATED", "DTSTAMP", "LAST-MODIFIED", "DURATION", "TRIGGER",
               "ATTENDEE", "ORGANIZER", "ATTACH", "TZURL", "URL", "TZOFFSETFROM", "TZOFFSETTO", "FREEBUSY", "RRULE", "GEO"]
RFC_NAMES = TEXT_NAMES + OTHER_NAMES
FREE_NAMES = ["X-A", "X-WR-TIMEZONE", "X-PUBLISHED-TTL", "REFRESH-INTERVAL", "TIMEZONE-ID", "COLOR", "ENDING", "END-X", "BEGINNER",
              "BEGIN-1", "summary", "Summary", "x", "1", "A-B-C", "X-" + "LONG" * 12, "STREET-ADDRESS", "LOCALITY",
              "EXTENDED-ADDRESS", "REGION", "COUNTRY", "POSTAL-CODE", "ACKNOWLEDGED", "PROXIMITY", "EXRULE", "BEGINX", "END1"]
REPEATABLE = ["ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RESOURCES"]
SINGLE_NAMES = [n for n in RFC_NAMES + FREE_NAMES if n not in REPEATABLE]
PARAM_NAMES = ["VALUE", "TZID", "LANGUAGE", "CN", "ROLE", "MEMBER", "X-P", "ALTREP", "FMTTYPE", "RELATED", "p", "X-1-2", "RANGE", "DELEGATED-TO"]

SPECIAL = list("\\nN,;:\"=^'%- \t.a0Z/") + ["\n", "\\\\", "\\n", "\\N", "\\,", "\\;", "\\:", "\\\n", ";;", "::"]
WIDE = ["é", "ß", "ü", "中", "日", "😀", "𝄞", "\u00a0", "\u2028", "\u2003", "\u3000", "\ufeff", "\u0301", "\u0085", "\u200d", "İ", "\ufffd"]
CONTROL = ["\x01", "\x0b", "\x0c", "\x7f", "\x1b", "\0"]


def pick(r, *weighted):
    total = sum(w for w, _ in weighted)
    x = r.random() * total
    for w, v in weighted:
        x -= w
        if x <= 0:
            return v
    return weighted[-1][1]


def text(r, breaks=True, cr=False, long=True):
    """a value: mostly characters that matter"""
    kind = r.random()
    def ch():
        k = r.random()
        if k < 0.55:
            c = r.choice(SPECIAL)
        elif k < 0.75:
            c = r.choice(WIDE)
        elif k < 0.78:
            c = r.choice(CONTROL)
        elif k < 0.80 and cr:
            c = "\r"
        elif k < 0.86:
            c = words.piece(r)
        else:
            c = chr(r.randint(33, 126))
        return c
    if kind < 0.08:
        s = ""
    elif kind < 0.12:
        s = words.word(r)
    elif kind < 0.45:
        s = "".join(ch() for _ in range(r.randint(1, 6)))
    elif kind < 0.65:
        s = "".join(ch() for _ in range(r.randint(7, 40)))
    elif kind < 0.78:
        some = ["meeting", "at", "the", "Café", "日本語", "Tom, Dick; Harry", "C:\\new\\temp", "a:b", "\n", "--", "100%", "\"q\""]
        s = " ".join(r.choice(some) for _ in range(r.randint(1, 12)))
    elif long:
        s = near_fold(r, breaks)
    else:
        s = "x" * r.randint(1, 30)
    if not breaks:
        s = s.replace("\n", "").replace("\r", "")
    return s


def near_fold(r, breaks=True):
    """long values whose characters straddle the octets at which lines are folded"""
    kind = r.randint(0, 5)
    n = 75 * r.randint(1, 4) + r.randint(-14, 6)
    if r.random() < 0.15:
        n = max(1, words.size(r, 600) + r.randint(-3, 3))
    if kind == 0:
        c = r.choice(WIDE + ["a", " ", "\t"])
        s = "a" * r.randint(0, 80) + c * r.randint(1, 160)
    elif kind == 1:
        s = "b" * max(0, n - r.randint(0, 30)) + r.choice(WIDE) * r.randint(1, 4) + "c" * r.randint(0, 90)
    elif kind == 2:
        s = "".join(r.choice(["a", "é", "中", "😀", " "]) for _ in range(n // 2))
    elif kind == 3:
        s = "d" * max(0, n - r.randint(0, 20)) + " " * r.randint(1, 80) + "e" * r.randint(0, 5)
    elif kind == 4:
        s = "f" * max(0, n - r.randint(0, 20)) + r.choice([",", "\\", ";", "\n"]) * r.randint(1, 60) + "g" * r.randint(0, 60)
    else:
        s = "h" * n
    return s


def pvalue(r, legal=True):
    k = r.random()
    if k < 0.1:
        s = ""
    elif k < 0.15:
        s = words.word(r)
    elif k < 0.3:
        s = r.choice(["abc", "Europe/Berlin", "en-US", "mailto:a@b.c", "a;b", "a,b", "DATE", "a=b", "http://x/y?z=1;2"])
    else:
        s = text(r, breaks=False, long=r.random() < 0.3)
    if legal:
        s = s.replace('"', "")
    return s.replace("\n", "").replace("\r", "")


def params(r, n=None, legal=True, value=True):
    n = n if n is not None else pick(r, (5, 0), (3, 1), (2, 2), (1, 3), (0.5, 5))
    out = []
    names = []
    for _ in range(n):
        k = r.choice(PARAM_NAMES[1:] if not value else PARAM_NAMES) if r.random() < 0.92 else words.word(r)
        if k == "VALUE" and not value:
            continue
        if k in names and r.random() < 0.9:
            continue
        names.append(k)
        if k == "VALUE" and r.random() < 0.85:
            v = r.choice(TYPES)
        else:
            v = pvalue(r, legal)
        out.append([T(k), T(v)])
    return out


def name(r, plain=True):
    k = r.random()
    if k < 0.45:
        return r.choice(TEXT_NAMES)
    if k < 0.65:
        return r.choice(OTHER_NAMES)
    if k < 0.87:
        return r.choice(FREE_NAMES)
    if k < 0.95:
        return words.word(r)
    return "".join(r.choice("ABCXYZabz019-") for _ in range(r.randint(1, 8))).upper()


def api_name(r):
    while True:
        n = name(r)
        if n.upper() not in ("BEGIN", "END"):
            return n


def is_text(n, ps):
    for k, v in ps:
        if k == T("VALUE"):
            s = "".join(map(chr, v))
            if s in TYPES:
                return s == "TEXT"
            break
    return n in TEXT_NAMES


def prop(r, legal=True, names=None):
    n = r.choice(names) if names else api_name(r)
    ps = params(r, legal=legal)
    brk = is_text(n, ps) or (not legal and r.random() < 0.5)
    return {"k": T(n), "v": T(text(r, breaks=brk, cr=brk and r.random() < 0.2)), "p": ps}


def case(kind, /, **c):
    return {"k": kind, "c": c}


def prop_cases(r, n, legal=0.93, names=None):
    for _ in range(n):
        yield case("prop", **prop(r, r.random() < legal, names))


# ------------------------------------------------------------------ content lines as text

def raw_value(r):
    k = r.random()
    if k < 0.25:
        return "".join(r.choice(["\\", "n", "N", ",", ";", ":", "a", "\"", " "]) for _ in range(r.randint(0, 8)))
    s = text(r, breaks=False, long=r.random() < 0.4)
    if k > 0.95:
        i = r.randint(0, len(s))
        s = s[:i] + "\r" + s[i:] + "a"
    return s


def param_text(r, odd=0.05):
    k = r.choice(PARAM_NAMES) if r.random() < 0.85 else words.word(r) if r.random() < 0.5 else r.choice(["x.y", "A/B", "a,b", "A_B", "é", "日"])
    if r.random() < odd:
        k = r.choice(["", " A", "A ", "A!", "\u00a0", "A\tB"])
    kind = r.random()
    if kind < 0.1:
        s = k
    elif kind < 0.2:
        s = k + "="
    elif kind < 0.27:
        s = k + '=""'
    elif kind < 0.6:
        v = pvalue(r).replace(":", "").replace(";", "")
        if k == "VALUE" and r.random() < 0.7:
            v = r.choice(TYPES + ["date", "Text", "X-FOO"])
        s = k + "=" + v
    elif kind < 0.95:
        v = r.choice(TYPES) if k == "VALUE" and r.random() < 0.5 else pvalue(r)
        s = k + '="' + v + '"'
    else:
        s = k + "=" + r.choice(['"a","b"', '"a"b', 'a"b"', '"a', 'a"', '""""', '"a" ', ' "a"', '" "'])
    return s


def line_text(r, odd=0.06):
    n = name(r)
    x = r.random()
    if x < 0.04:
        n = r.choice(["END", "BEGIN", "END-", "BEGIN.X", "a.b", "A/B", "A_B", "A,B", "é", "日本", "begin", "1-2"])
    elif x < 0.04 + odd:
        n = r.choice(["", " X", "X Y", "X=", '"X"', "\tX", "X\u00a0", "-", "😀"])
    ps = [param_text(r, odd / 3) for _ in range(pick(r, (5, 0), (4, 1), (2, 2), (1, 3), (0.3, 6)))]
    sep = lambda: ";" + r.choice(["", "", "", "", "", "", " ", "\t", "  "])
    s = n + "".join(sep() + p for p in ps)
    if r.random() < 0.06 and not ps:
        return s
    return s + ":" + raw_value(r)


def mutate_text(r, s, alphabet=None):
    alphabet = alphabet or ["\r", ";", ":", "=", '"', "\\", " ", "\t", "a", ",", "\n", "\r\n", "é", "\u00a0", "-", "END:", "BEGIN:"]
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(s))
        k = r.random()
        if k < 0.45:
            s = s[:i] + r.choice(alphabet) + s[i:]
        elif k < 0.75:
            s = s[:i] + s[i + 1:]
        else:
            s = s[:i] + r.choice(alphabet) + s[i + 1:]
    return s


def line_cases(r, n, odd=0.06):
    for _ in range(n):
        s = line_text(r, odd)
        if r.random() < odd * 2:
            s = mutate_text(r, s)
        if r.random() < odd:
            s = r.choice(["\ufeff", "\ufeff", " ", "\t", "\u00a0", "\n", "\r\n", "\r", "\0", "\u200b", "\u2028", "\u3000", "\v", "+", "\""]) + s
        if r.random() < odd:
            s += r.choice(["\ufeff", " ", "\t", "\u00a0", "\n", "\r\n", "\r", "\0", "\u200b", "\u2028", "\u3000", "\v", "\n\n", "\r\n ", "\n\tx", ";"])
        yield case("line", text=T(s))


def param_cases(r, n):
    for _ in range(n):
        s = ";" + r.choice(["", "", "", " ", "\t"]) + param_text(r)
        if r.random() < 0.1:
            s = mutate_text(r, s)
        yield case("param", text=T(s))


# ------------------------------------------------------------------ streams

COMP_NAMES = ["VEVENT", "VTODO", "VVENUE", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VJOURNAL", "X-COMP", "VCALENDAR", "VEVENTS",
              "vevent", "X", "VFREEBUSY", "VEVEN", "END", "BEGIN"]


def tree(r, depth, names=None, wide=1.0):
    n = r.choice(names or COMP_NAMES) if r.random() < 0.88 else words.word(r)
    nprops = pick(r, (2, 0), (3, 1), (3, 2), (2, 4), (wide, 8))
    items = []
    reps = [r.choice(REPEATABLE + ["X-A", "RELATED-TO", "SUMMARY", "DTSTART", "X-B", "REQUEST-STATUS"]) for _ in range(2)]
    for _ in range(nprops):
        if r.random() < 0.25:
            nm = r.choice(reps)
            items.append(nm + "".join(";" + p for p in [param_text(r, 0)][: r.randint(0, 1)]) + ":" + raw_value(r))
        else:
            items.append(line_text(r, 0))
    if depth > 0:
        for _ in range(pick(r, (3, 0), (3, 1), (1, 2), (0.5, 3))):
            items.insert(r.randint(0, len(items)), tree(r, depth - 1, names, wide))
    return (n, items)


def tree_lines(node):
    n, items = node
    out = ["BEGIN:" + n]
    for it in items:
        out += tree_lines(it) if isinstance(it, tuple) else [it]
    return out + ["END:" + n]


def transport(r, lines, fold=None, eol=None, blank=0.03):
    eol = eol or pick(r, (6, "\r\n"), (2, "\n"))
    fold = fold if fold is not None else pick(r, (4, "75"), (2, "no"), (3, "random"), (1, "every"))
    out = []
    for ln in lines:
        parts = []
        cur = ""
        octs = 0
        for c in ln:
            brk = False
            if cur:
                if fold == "75":
                    brk = octs + len(c.encode("utf-8", "surrogatepass")) > 75
                elif fold == "random":
                    brk = r.random() < 0.08
                elif fold == "every":
                    brk = True
            if brk:
                parts.append(cur)
                cur = r.choice([" ", " ", " ", "\t"]) if fold != "75" else " "
                octs = 1
            cur += c
            octs += len(c.encode("utf-8", "surrogatepass"))
        parts.append(cur)
        out.append(eol.join(parts))
        if r.random() < blank:
            out += [""] * pick(r, (12, 1), (3, 2), (2, r.randint(3, 9)), (1, r.randint(10, 40)))
    s = eol.join(out) + eol
    if r.random() < 0.1:
        s = s[: -len(eol)]
    if r.random() < 0.03:
        s = eol + s
    return s


def stream_lines(r, depth=3, wide=1.0):
    k = r.random()
    if k < 0.65:
        names = COMP_NAMES[:13]
        kids = [tree(r, r.randint(0, depth), names, wide) for _ in range(pick(r, (1, 0), (3, 1), (2, 2), (1, 4)))]
        items = [line_text(r, 0) for _ in range(pick(r, (1, 0), (3, 2), (1, 5)))] if r.random() < 0.9 else []
        if r.random() < 0.15:
            items = items + kids
            r.shuffle(items)
        else:
            items = items + kids
        roots = [("VCALENDAR", items)]
        if r.random() < 0.08:
            roots.append(tree(r, 1, names, wide))
            if r.random() < 0.5:
                roots.reverse()
    else:
        roots = [tree(r, r.randint(0, depth), None, wide) for _ in range(pick(r, (4, 1), (2, 2), (1, 3), (0.3, 0)))]
    lines = []
    for t in roots:
        lines += tree_lines(t)
    return lines


def break_lines(r, lines):
    """a stream with one thing wrong"""
    lines = list(lines)
    tags = [i for i, ln in enumerate(lines) if ln.startswith(("BEGIN:", "END:"))]
    ends = [i for i in tags if lines[i].startswith("END:")]
    k = r.randint(0, 9)
    if not tags or not ends:
        return lines + ["END:X"]
    i = r.choice(tags)
    e = r.choice(ends)
    if k == 0:
        del lines[i]
    elif k == 1:
        lines.insert(i, lines[i])
    elif k == 2:
        lines[e] = lines[e] + r.choice(["X", "S", " ", "-", ";"])
    elif k == 3:
        lines[e] = lines[e][:-1]
    elif k == 4:
        lines[e] = "END:" + r.choice(COMP_NAMES)
    elif k == 5:
        j = r.choice(tags)
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 6:
        lines.insert(r.randint(0, len(lines)), r.choice(["END", "BEGIN", "END:", "BEGIN:", "", " ", "END:VEVENT", "BEGIN:VEVENT", "X", "no colon here", ":", ";", "END :X"]))
    elif k == 7:
        lines[i] = lines[i].lower() if r.random() < 0.5 else lines[i].replace(":", " :")
    elif k == 8:
        j = r.randint(0, len(lines) - 1)
        lines[j] = mutate_text(r, lines[j])
    else:
        lines = lines[: r.randint(0, len(lines))]
    return lines


def read_cases(r, n, broken=0.25, cut=0.1, full=1.0, depth=3, wide=1.0):
    for _ in range(n):
        lines = stream_lines(r, depth, wide)
        if r.random() < broken:
            lines = break_lines(r, lines)
        s = transport(r, lines)
        if r.random() < cut:
            s = s[: r.randint(0, len(s))]
        elif r.random() < broken * 0.15:
            s = mutate_text(r, s)
        yield case("read", text=T(s), full=1 if r.random() < full else 0)


def cut_cases(r, n):
    """every prefix of some streams"""
    done = 0
    while done < n:
        lines = stream_lines(r, 2, 0.2)
        s = transport(r, lines)
        if len(s) > 260:
            continue
        for i in range(len(s) + 1):
            yield case("read", text=T(s[:i]), full=0)
            done += 1


def unfold_cases(r, n):
    toks = ["\r\n", "\n", "\r", " ", "\t", "a", "é", "\r\n ", "\n\t", "\r\r\n ", "\u00a0", "\n\n ", "\x0b", "日"]
    for _ in range(n):
        yield case("unfold", text=T("".join(r.choice(toks) for _ in range(pick(r, (5, r.randint(0, 8)), (1, r.randint(9, 60)))))))


# ------------------------------------------------------------------ dates, zones, durations, types

ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Tokyo", "Pacific/Auckland", "Australia/Lord_Howe",
         "Etc/UTC", "Etc/GMT"] + ["Etc/GMT+%d" % i for i in range(1, 13)] + ["Etc/GMT-%d" % i for i in range(1, 15)]
BAD_ZONES = ["Europe/Atlantis", "europe/berlin", "Nowhere", "", "Europe/Berlin ", "EUROPE/BERLIN", "Etc/GMT+99"]


def days_in(y, m):
    return [31, 29 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def ymd(r, lo=0, hi=9999):
    y = pick(r, (4, r.randint(lo, hi)), (3, r.choice([1970, 1999, 2000, 2023, 2024, 2025, 2100, 2400])), (1, lo), (1, hi))
    y = min(max(y, lo), hi)
    m = r.randint(1, 12)
    last = days_in(y, m)
    d = r.choice([1, last, r.randint(1, last), r.randint(1, last)])
    return {"y": y, "m": m, "d": d}


def hms(r):
    return {"H": r.choice([0, 23, 12, 9, r.randint(0, 23)]), "M": r.choice([0, 59, r.randint(0, 59)]), "S": r.choice([0, 59, r.randint(0, 59)])}


def between(r, v):
    """perhaps between two seconds"""
    if r.random() < 0.12:
        v["ns"] = r.choice([1, 999_999_999, 500_000_000, 123_000_000, 100, r.randint(1, 999_999_999)])
    return v


def date_value(r, form=None, lo=0, hi=9999):
    f = form or r.choice(["date", "floating", "utc", "zoned"])
    v = {"f": f, **ymd(r, lo, hi)}
    if f != "date":
        v.update(hms(r))
        between(r, v)
    if f == "zoned":
        tz = pick(r, (5, r.choice(ZONES[:7])), (2, r.choice(ZONES)), (1, r.choice(BAD_ZONES)), (2, r.choice(zone_changes())[0]), (1, text(r, breaks=False, long=False).replace('"', "")))
        v["tz"] = T(tz)
        if r.random() < 0.6:
            v["y"] = r.randint(2010, 2030)
            v["d"] = min(v["d"], days_in(v["y"], v["m"]))
    return v


DATE_KEYS = ["DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "LAST-MODIFIED", "DTSTAMP", "RECURRENCE-ID", "X-DATE", "SUMMARY"]


def dt_cases(r, n):
    for _ in range(n):
        yield case("dt", v=date_value(r), key=T(r.choice(DATE_KEYS)))


def date_text(v):
    s = "%04d%02d%02d" % (v["y"], v["m"], v["d"])
    if v["f"] != "date":
        s += "T%02d%02d%02d" % (v["H"], v["M"], v["S"])
    if v["f"] == "utc":
        s += "Z"
    return s


def bad_date_text(r):
    s = date_text(date_value(r, r.choice(["date", "floating", "utc"])))
    k = r.randint(0, 9)
    if k == 0:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice("0159TZ-:+ .,aztdW/") + s[i:]
    elif k == 1:
        i = r.randint(0, max(0, len(s) - 1))
        s = s[:i] + s[i + 1:]
    elif k == 2:
        i = r.randint(0, max(0, len(s) - 1))
        s = s[:i] + r.choice("0123456789TZ-:+ .az") + s[i + 1:]
    elif k == 3:
        s = "%04d%02d%02d" % (r.choice([0, 1900, 2000, 2023, 2024]), r.randint(0, 13), r.choice([0, 28, 29, 30, 31, 32])) + s[8:]
    elif k == 4:
        s = s[:8] + "T%02d%02d%02d" % (r.choice([0, 23, 24, 25]), r.choice([0, 59, 60]), r.choice([0, 59, 60, 61])) + s[15:]
    elif k == 5:
        s = s.lower()
    elif k == 6:
        s = s + r.choice(["Z", "ZZ", "T", "+0100", "z", "/P1D", ",20200101", ".5", " "])
    elif k == 7:
        s = r.choice(["", "T", "Z", "TZ", "00000000", "00000000T000000Z", "2020-01-01", "2020-01-01T00:00:00", "20200230", "20190229", "19000229T120000",
                      "20000229", "99991231T235959Z", "00010101", "20201301", "20200001", "20200100", "TEXT", "２０２００１０１"])
    elif k == 8:  # one number of it in another spelling
        parts = [s[:4], s[4:6], s[6:8]] + ([s[8:9], s[9:11], s[11:13], s[13:15], s[15:]] if len(s) > 8 else [])
        i = r.choice([j for j, x in enumerate(parts) if x[:1].isdigit()])
        parts[i] = r.choice(["%d", " %d", "+%d", "%d ", "\t%d", "-%d", "%03d", "%5d", "+%02d", "\u00a0%d"]) % int(parts[i])
        s = "".join(parts)
    return s


def dtraw_cases(r, n):
    for _ in range(n):
        ps = []
        if r.random() < 0.5:
            ps.append([T("VALUE"), T(r.choice(["DATE", "DATE-TIME", "DATE", "DATE-TIME", "TEXT", "date", "PERIOD", "X"]))])
        if r.random() < 0.4:
            ps.append([T("TZID"), T(r.choice(ZONES[:7] + BAD_ZONES))])
        if r.random() < 0.1:
            ps.append([T("X-P"), T("DATE")])
        r.shuffle(ps)
        yield case("dtraw", k=T(r.choice(DATE_KEYS[:9])), v=T(bad_date_text(r)), p=ps)


def transitions(y):
    """local times around the transitions of the zones, as (zone, month, day, hour)"""
    import datetime
    def sunday(m, n):
        if n > 0:
            d = datetime.date(y, m, 1)
            d += datetime.timedelta((6 - d.weekday()) % 7 + 7 * (n - 1))
        else:
            d = datetime.date(y, m, days_in(y, m))
            d -= datetime.timedelta((d.weekday() + 1) % 7)
        return d
    return [("Europe/Berlin", sunday(3, -1), 2), ("Europe/Berlin", sunday(10, -1), 2),
            ("America/New_York", sunday(3, 2), 2), ("America/New_York", sunday(11, 1), 1),
            ("Pacific/Auckland", sunday(9, -1), 2), ("Pacific/Auckland", sunday(4, 1), 2),
            ("Australia/Lord_Howe", sunday(10, 1), 2), ("Australia/Lord_Howe", sunday(4, 1), 1)]


def zone_cases(r, n):
    import datetime
    for _ in range(n):
        k = r.random()
        if k < 0.5:
            y = r.randint(2010, 2030)
            tz, d, h = r.choice(transitions(y))
            t = datetime.datetime(d.year, d.month, d.day, h) + datetime.timedelta(minutes=r.choice(
                [-61, -60, -31, -30, -1, 0, 1, 29, 30, 31, 59, 60, 61, 89, 90, 119, 120, r.randint(-180, 180), r.randint(-900, 900)]))
            # the same as an instant, too: harness reads the numbers as UTC as well
            if r.random() < 0.3:
                off = {"Europe/Berlin": 60, "America/New_York": -300, "Pacific/Auckland": 720, "Australia/Lord_Howe": 630}[tz]
                t -= datetime.timedelta(minutes=off)
            if r.random() < 0.1:
                tz = r.choice(ZONES)
            v = {"y": t.year, "m": t.month, "d": t.day, "H": t.hour, "M": t.minute, "S": r.choice([0, 0, 59, r.randint(0, 59)])}
        elif k < 0.85:
            v = {**ymd(r, 2010, 2030), **hms(r)}
            tz = r.choice(ZONES)
        else:
            v = {**ymd(r, 2010, 2030), **hms(r)}
            tz = r.choice(ZONES[:7] + BAD_ZONES)
            f, x = r.choice([("m", 0), ("m", 13), ("d", 0), ("d", 32), ("d", 31), ("d", 30), ("d", 29), ("H", 24), ("M", 60), ("S", 60), ("H", 25), ("M", 99)])
            v[f] = x
        v["tz"] = T(tz)
        yield case("zone", v=between(r, v))


@functools.cache
def zone_changes():
    """[zone, local time before a change of the offset, seconds by which the clock jumps] of every zone, from the IANA database"""
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "zones.json")) as f:
        return json.load(f)


def any_zone_cases(r, n):
    """every zone of the database, mostly around changes of its offset, in any year"""
    import datetime
    changes = zone_changes()
    for i in range(n):
        z = changes[i % len(changes)] if i < len(changes) else r.choice(changes)
        k = r.random()
        if k < 0.85:
            t = datetime.datetime(*z[1:7]) + datetime.timedelta(seconds=r.choice(
                [-1, 0, 1, z[7] - 1, z[7], z[7] + 1, z[7] // 2, -z[7] - 1, -z[7], r.randint(-90000, 90000), r.randint(-7200, 7200)]))
            v = {"y": t.year, "m": t.month, "d": t.day, "H": t.hour, "M": t.minute, "S": t.second}
        elif k < 0.95:
            v = {**ymd(r, 1800, 2200), **hms(r)}
        else:
            v = {**ymd(r, 2, 9998), **hms(r)}
        v["tz"] = T(z[0] if r.random() < 0.98 else r.choice([z[0].lower(), z[0] + " ", z[0] + "/X", z[0][1:]]))
        yield case("zone", v=between(r, v))


def seconds(r):
    k = r.random()
    if k < 0.3:
        n = r.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 604800, 604799, 900, 2147483647, 2147483648, 31536000])
    elif k < 0.6:
        n = r.randint(0, 100000)
    elif k < 0.8:
        n = r.randint(0, 2 ** 31)
    else:
        n = r.choice([60, 3600, 86400, 604800]) * r.randint(0, 500)
    return n


def dur_value(r, signed=True):
    n = seconds(r)
    d = {"neg": bool(signed and n and r.random() < 0.5), "digits": T(str(n))}
    if r.random() < 0.15:
        d["ms"] = r.choice([1, 5, 10, 20, 100, 250, 500, 999, r.randint(1, 999)])
        d["neg"] = bool(signed and r.random() < 0.5)
    return d


def trig_args(r):
    if r.random() < 0.3:
        v = {"dt": date_value(r, r.choice(["floating", "utc", "zoned"]))}
        if r.random() < 0.5:
            v["direct"] = 1
        return v
    v = {"dur": dur_value(r)}
    via = r.choice(["after_start", "after_end", "before_start", "before_end", "start", "end", None])
    if via:
        v["via"] = via
    return v


def trig_cases(r, n):
    for _ in range(n):
        yield case("trig", desc=T(text(r, long=False)), **trig_args(r))


def dur_text(r):
    k = r.random()
    num = lambda: str(r.choice([0, 1, 2, 7, 15, 24, 59, 60, 90, 100, 365, r.randint(0, 9999)])).zfill(r.choice([1, 1, 1, 2, 4]))
    if k < 0.2:
        s = "P" + num() + "W"
    else:
        time = ""
        a = r.randint(0, 2)
        b = r.randint(a, 2)
        for u in "HMS"[a:b + 1]:
            time += num() + u
        if time.endswith("S") and r.random() < 0.2:
            time = time[:-1] + "." + "".join(r.choice("0123459") for _ in range(r.choice([1, 1, 2, 3, 3, 4, 9]))) + "S"
        if k < 0.4:
            s = "P" + num() + "D"
        elif k < 0.6:
            s = "P" + num() + "DT" + time
        else:
            s = "PT" + time
    return r.choice(["", "", "", "+", "-", "-"]) + s


def trigraw_cases(r, n):
    for _ in range(n):
        k = r.random()
        s = dur_text(r)
        if k < 0.25:
            s = mutate_text(r, s, list("PTWDHMS0159+- .,:") + ["é"])
        elif k < 0.45:
            s = date_text(date_value(r, r.choice(["floating", "utc", "utc", "date"])))
            if r.random() < 0.3:
                s = bad_date_text(r)
        elif k < 0.5:
            s = r.choice(["", "P", "PT", "-", "+", "T", "-P", "--PT1S", "PT-1S", "P1", "1D", "PT1", "P1H", "P1S", "PTS", "P1W1D", "P1DT", "text"])
        ps = []
        if r.random() < 0.55:
            ps.append([T("VALUE"), T(r.choice(["DURATION", "DATE-TIME", "DATE-TIME", "DURATION", "TEXT", "DATE"]))])
        if r.random() < 0.4:
            ps.append([T("RELATED"), T(r.choice(["START", "END", "END", "START", "MIDDLE", "end", ""]))])
        if r.random() < 0.2:
            ps.append([T("TZID"), T(r.choice(ZONES[:7]))])
        r.shuffle(ps)
        key = "TRIGGER" if r.random() < 0.93 else r.choice(["DTSTART", "X-TRIGGER", "DURATION"])
        yield case("trigraw", k=T(key), v=T(s), p=ps)


# names of parameters that are not VALUE: any part of it, it with something in front, behind or
# inside, in other case, and the names of other parameters
NEARLY_VALUE = sorted(
    ({"VALUE"[i:j] for i in range(6) for j in range(i, 6)}
     | {"VALUE"[:i] + c + "VALUE"[j:] for i in range(6) for j in (i, i + 1) for c in "VEXSe-_ .1"}
     | {"X-VALUE", "XVALUE", "VALUE-TYPE", "VALUE-", "value", "Value", "vALUE", "VALUEVALUE", "VALUE=VALUE", "\uff36ALUE"}
     | {"TYPE", "TZID", "ENCODING", "FMTTYPE", "RELATED", "CN", "LANGUAGE", "VALUATION"})
    - {"VALUE"})


def nearly(r, key):
    """a name close to key: that nothing is stored under, or something else"""
    return r.choice([" " + key, key + " ", key.lower(), key.upper(), key.title(), key[:-1], key[1:], key + ":", key + ";", "X-" + key,
                     key + "\n", key.replace("-", "_"), key.replace("-", ""), key + "-", key + key, ""])


def vt_all():
    names = RFC_NAMES + ["X-A", "COLOR", "summary", "IMAGE", "CONFERENCE", "REFRESH-INTERVAL", "SOURCE", "X-WR-TIMEZONE", "STREET-ADDRESS", "ZZZ"]
    values = [None] + TYPES + ["", "text", "Text", "TEX", "TEXTS", "X-TYPE", "DATE-TIMES", "DATETIME", "UTC_OFFSET"]
    texts = ["a\\,b;c\\nd", "x"]
    out = []
    for n in names:
        for v in values:
            c = {"key": T(n), "text": T("a,b;c\\d:e\\n"), "otherkey": T(NEARLY_VALUE[len(out) % len(NEARLY_VALUE)])}
            if v is not None:
                c["value"] = T(v)
            out.append({"k": "vt", "c": c})
    for w in TYPES:
        for v in words.around(w):
            if not any(c in v for c in '";,:\n\r\0'):
                out.append({"k": "vt", "c": {"key": T("SUMMARY" if len(out) % 2 else "X-A"), "value": T(v), "text": T("a,b;c\\d:e\\n"), "otherkey": T("TYPE")}})
    # names around those that have a type
    for n in RFC_NAMES:
        for m in ["X-" + n, n + "X", n + "-1", "X-WR-" + n, n[:-1], n[1:], n.lower(), n.title(), n + "S", "IANA-" + n, n.replace("-", ""), n.replace("-", "_"), "X" + n, n + "." + n]:
            if m and m.upper() not in ("BEGIN", "END"):
                out.append({"k": "vt", "c": {"key": T(m), "text": T("a,b;c\\d:e\\n"), "otherkey": T("TYPE")}})
    return out


def vt_cases(r, n):
    for _ in range(n):
        c = {"key": T(name(r)), "text": T(text(r, breaks=r.random() < 0.3, long=False)), "otherkey": T(r.choice(NEARLY_VALUE))}
        if r.random() < 0.85:
            c["value"] = T(r.choice(TYPES + ["X", "text", "TEXTX", "DAT", ""]))
        if "".join(map(chr, c["key"])).upper() in ("BEGIN", "END"):
            continue
        yield {"k": "vt", "c": c}


# ------------------------------------------------------------------ programs

TEXT_FIELDS = ["summary", "description", "uid", "url"]
VENUE_FIELDS = ["street_address", "extended_address", "locality", "region", "country", "postal_code"]
FIELD_KEYS = ["SUMMARY", "DESCRIPTION", "UID", "URL", "LOCATION", "CLASS", "STATUS", "PRIORITY", "SEQUENCE", "PERCENT-COMPLETE",
              "DTSTART", "DTEND", "DUE", "DTSTAMP", "LAST-MODIFIED", "CREATED", "COMPLETED", "TRIGGER", "ACTION", "REPEAT", "DURATION",
              "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE"]
RAW = {
    "CLASS": ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "public", "Secret", "", "PUBLIC "],
    "STATUS": ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL", "confirmed", ""],
    "PRIORITY": ["0", "1", "9", "10", "11", "255", "4294967295", "4294967296", "-1", "-0", "", "x", "+5", "007", "1.5", " 1", "99999999999999999999"],
    "SEQUENCE": ["0", "1", "2147483648", "4294967295", "4294967296", "-1", "", "x", "+5", "00012"],
    "PERCENT-COMPLETE": ["0", "50", "100", "101", "255", "256", "-1", "", "x", "+5", "1e1"],
}


POURED = ["filter", "unknown", "wide", "least", "queue", "chain"]  # kinds of iterators


class Prog:
    """random programs; only the kinds of the registers are tracked"""

    def __init__(self, r, legal=1.0, names=None, focus=None, breaks_ok=True):
        self.r = r
        self.legal = legal
        self.names = names
        self.focus = focus
        self.ops = []
        self.regs = {}
        self.cals = {}
        self.next = 1
        self.cnext = 1

    # -------------------------------------------------- registers
    def reg(self, *kinds):
        c = [i for i, k in self.regs.items() if not kinds or k in kinds]
        return self.r.choice(c) if c else None

    def add(self, **op):
        self.ops.append(op)

    def new(self, kind=None):
        r = self.r
        kind = kind or r.choice(["event"] * 5 + ["todo"] * 4 + ["venue"] * 2 + ["audio", "display", "other"])
        i = self.next if len(self.regs) < 5 else r.choice(list(self.regs))
        self.next = max(self.next, i + 1)
        op = {"op": "new", "r": i, "kind": kind}
        if kind in ("audio", "display"):
            t = trig_args(r)
            if self.legal == 1.0 and "dt" in t and t["dt"]["f"] == "zoned" and not self.ok_tz(t["dt"]):
                t = {"dur": dur_value(r)}
            op["trig"] = t
        if kind == "display":
            op["desc"] = self.text()
        if kind == "other":
            op["name"] = T(r.choice(["VALARM", "VTIMEZONE", "VJOURNAL", "X-C", "STANDARD", "VCALENDAR"]) if r.random() < 0.8 else words.word(r))
        self.ops.append(op)
        self.regs[i] = {"audio": "alarm", "display": "alarm"}.get(kind, kind)
        return i

    def ok_tz(self, v):
        return v["tz"] and 34 not in v["tz"]

    def text(self, breaks=True):
        return T(text(self.r, breaks=breaks, long=self.r.random() < 0.25))

    def prop(self, names=None):
        names = names or self.names
        n = None
        if names is None and self.r.random() < 0.5:
            n = self.r.choice(FIELD_KEYS)
        p = prop(self.r, self.r.random() < self.legal, [n] if n else names)
        key = "".join(map(chr, p["k"]))
        if key in RAW and self.r.random() < 0.6:
            p["v"] = T(self.r.choice(RAW[key]))
        elif key in ("DTSTART", "DTEND", "DUE", "DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED") and self.r.random() < 0.6:
            p["v"] = T(bad_date_text(self.r).replace("\n", "").replace("\r", ""))
        elif key in ("TRIGGER", "DURATION") and self.r.random() < 0.6:
            p["v"] = T(dur_text(self.r))
        return p

    # -------------------------------------------------- steps
    def comp_step(self):
        r = self.r
        if not self.regs or r.random() < 0.12:
            self.new()
            return
        i = self.reg()
        kind = self.regs[i]
        like = kind in ("event", "todo")
        choices = ["append"] * 3 + ["multi"] * 2 + ["text"] * 3 + ["num", "class", "stamp", "child"]
        if like:
            choices += ["date"] * 3 + ["allday", "status", "status", "location", "venue", "alarm"]
        if kind == "todo":
            choices += ["due", "percent", "completed"]
        if kind == "venue":
            choices += ["address"] * 5
        if kind == "alarm":
            choices += ["durrep"] * 2
        if kind != "other":
            choices += ["done"]
        choices += ["into"]
        choices += ["clone"] if len(self.regs) < 6 else []
        if self.focus:
            f = [c for c in choices if c in self.focus]
            if f and r.random() < 0.75:
                choices = f
        o = r.choice(choices)
        if o == "append":
            self.add(op="append", r=i, p=self.prop(), via=r.choice(["append", "append", "add", "pre", "tuple"]))
        elif o == "multi":
            n = REPEATABLE if r.random() < 0.7 else None
            self.add(op="multi", r=i, p=self.prop(n), via=r.choice(["append", "add"]))
        elif o == "into":
            what = r.choice(["class", "event_status", "todo_status", "duration", "trigger"])
            op = {"op": "into", "r": i, "what": what, "multi": int(r.random() < 0.2)}
            if what == "class":
                op["v"] = r.choice(["PUBLIC", "PRIVATE", "CONFIDENTIAL"])
            elif what == "event_status":
                op["v"] = r.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"])
            elif what == "todo_status":
                op["v"] = r.choice(["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"])
            elif what == "duration":
                op["dur"] = dur_value(r)
            else:
                t = trig_args(r)
                if "dt" in t and t["dt"]["f"] == "zoned" and not self.ok_tz(t["dt"]):
                    t = {"dur": dur_value(r)}
                op["trig"] = t
            self.add(**op)
        elif o == "text":
            f = r.choice(TEXT_FIELDS)
            self.add(op="text", r=i, f=f, v=self.text(f not in ("url",) or self.legal < 1))
        elif o == "location":
            self.add(op="text", r=i, f="location", v=self.text())
        elif o == "address":
            f = r.choice(VENUE_FIELDS)
            self.add(op="text", r=i, f=f, v=self.text(self.legal < 1))
        elif o == "venue":
            self.add(op="venue", r=i, v=self.text(), uid=T(pvalue(r, True)))
        elif o == "num":
            f = r.choice(["priority", "sequence"])
            self.add(op="num", r=i, f=f, v=T(str(r.choice([0, 1, 5, 9, 10, 11, 12, 100, 255, 256, 4294967295, r.randint(0, 2 ** 32 - 1)]))))
        elif o == "percent":
            self.add(op="num", r=i, f="percent", v=T(str(r.choice([0, 1, 50, 99, 100, 101, 255, r.randint(0, 255)]))))
        elif o == "class":
            self.add(op="class", r=i, v=r.choice(["PUBLIC", "PRIVATE", "CONFIDENTIAL"]))
        elif o == "status":
            self.add(op="status", r=i, v=r.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"] if kind == "event" else
                                                 ["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"]))
        elif o == "stamp":
            self.add(op="stamp", r=i, f=r.choice(["timestamp", "last_modified", "created"]), v=date_value(r, "utc"))
        elif o == "completed":
            self.add(op="stamp", r=i, f="completed", v=date_value(r, "utc"))
        elif o in ("date", "due"):
            v = date_value(r)
            if v["f"] == "zoned" and not self.ok_tz(v):
                v["tz"] = T("Europe/Berlin")
            self.add(op="date", r=i, f="due" if o == "due" else r.choice(["starts", "ends"]), v=v, via=r.choice(["direct", "perhaps"]))
        elif o == "allday":
            self.add(op="allday", r=i, v=date_value(r, "date"))
        elif o == "alarm":
            a = self.reg("alarm") or self.new(r.choice(["audio", "display"]))
            if a != i and self.regs.get(i) in ("event", "todo"):
                self.add(op="child", r=i, **{"from": a}, via="alarm")
        elif o == "child":
            a = self.reg()
            if a != i:
                self.add(op="child", r=i, **{"from": a})
        elif o == "durrep":
            self.add(op="durrep", r=i, dur=dur_value(r), n=T(str(r.choice([0, 1, 4, 4294967295]))))
        elif o in ("done", "clone"):
            to = self.next
            self.next += 1
            self.add(op=o, r=i, to=to)
            self.regs[to] = kind

    def cal_step_new(self, via="new"):
        c = self.cnext
        self.cnext += 1
        self.add(op="cnew", c=c, via=via)
        self.cals[c] = True
        return c

    def cal_step(self):
        r = self.r
        if not self.cals or r.random() < 0.06:
            k = r.random()
            c = self.cnext
            self.cnext += 1
            if k < 0.6 or not self.regs:
                self.add(op="cnew", c=c, via=r.choice(["new", "new", "default", "empty"]))
            else:
                rs = [self.reg() for _ in range(r.randint(0, 3))]
                via = r.choice(["one", "array", "collect"] + POURED)
                if via == "one":
                    rs = rs[:1] or [self.reg()]
                self.add(op="cfrom", c=c, via=via, rs=rs)
            self.cals[c] = True
            return
        c = r.choice(list(self.cals))
        o = r.choice(["push"] * 5 + ["extend"] * 3 + ["cappend"] * 2 + ["cprop"] * 3 + ["cset"] * 3 + ["ttl"] * 2 + ["cdone"] + ["cdrop", "cput", "cedit", "crev", "pdrop", "pput"])
        if self.focus:
            f = [x for x in ["push", "extend", "cappend", "cprop", "cset", "ttl", "cdone", "pdrop", "pput"] if x in self.focus]
            if f and r.random() < 0.75:
                o = r.choice(f)
        if o in ("push", "extend", "cput") and not self.regs:
            self.new()
        if o == "push":
            self.add(op="push", c=c, r=self.reg(), via=r.choice(["push", "push", "add"]))
        elif o == "extend":
            if r.random() < 0.4 and self.reg("event"):
                rs = [self.reg("event") for _ in range(r.randint(0, 3))]
            else:
                rs = [self.reg() for _ in range(r.randint(0, 3))]
            self.add(op="extend", c=c, rs=rs, via=r.choice(["events", "items"] + POURED))
        elif o == "cappend":
            others = [x for x in self.cals if x != c]
            if others:
                self.add(op="cappend", c=c, **{"from": r.choice(others)})
        elif o in ("cdrop", "pdrop"):
            self.add(op=o, c=c, i=r.randint(1, 9))
        elif o == "crev":
            self.add(op=o, c=c)
        elif o == "cput":
            self.add(op=o, c=c, i=r.randint(1, 9), r=self.reg())
        elif o == "cedit":
            self.add(op=o, c=c, i=r.randint(1, 9), p=self.prop())
        elif o in ("cprop", "pput"):
            names = None
            if r.random() < 0.5:
                names = ["NAME", "X-WR-CALNAME", "DESCRIPTION", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "REFRESH-INTERVAL", "X-PUBLISHED-TTL",
                         "VERSION", "PRODID", "METHOD"]
            p = self.prop(names)
            key = "".join(map(chr, p["k"]))
            if key in ("REFRESH-INTERVAL", "X-PUBLISHED-TTL") and r.random() < 0.75:
                p["v"] = T(dur_text(r))
            if o == "cprop":
                self.add(op="cprop", c=c, p=p)
            else:
                self.add(op="pput", c=c, i=r.randint(1, 9), p=p)
        elif o == "cset":
            f = r.choice(["name", "description", "timezone"])
            self.add(op="cset", c=c, f=f, v=self.text(f != "timezone" or self.legal < 1))
        elif o == "ttl":
            self.add(op="ttl", c=c, dur=dur_value(r, False))
        elif o == "cdone":
            to = self.cnext
            self.cnext += 1
            self.add(op="cdone", c=c, to=to)
            self.cals[to] = True

    # -------------------------------------------------- observations
    def get(self):
        i = self.reg()
        if i:
            keys = self.r.sample(FIELD_KEYS, 3) + [self.r.choice(FREE_NAMES)]
            for op in reversed(self.ops[-4:]):
                if isinstance(op.get("p"), dict) and op.get("r") == i:
                    keys.append("".join(map(chr, op["p"]["k"])))
            keys += [nearly(self.r, k) for k in self.r.sample(keys, 2)]
            self.add(op="get", r=i, keys=[T(k) for k in keys])

    def ser(self):
        i = self.reg()
        if i:
            self.add(op="ser", r=i)

    def cget(self):
        if self.cals:
            c = self.r.choice(list(self.cals))
            keys = ["VERSION", "NAME", "X-WR-CALNAME", "METHOD", "X-A", "PRODID", "REFRESH-INTERVAL"]
            keys += [nearly(self.r, k) for k in self.r.sample(keys, 3)]
            self.add(op="cget", c=c, keys=[T(k) for k in keys])

    def cwrite(self):
        if self.cals:
            self.add(op="cwrite", c=self.r.choice(list(self.cals)))

    def creread(self, cr_possible=False):
        if self.cals:
            c = self.r.choice(list(self.cals))
            to = self.cnext
            self.cnext += 1
            r = self.r
            self.add(op="creread", c=c, to=to, tr={"lf": 0 if cr_possible else int(r.random() < 0.3), "tab": int(r.random() < 0.3),
                                                   "width": r.choice([0, 0, 74, 40, 7, 2, 1]), "blank": int(r.random() < 0.15)})
            return to

    def case(self):
        return {"k": "prog", "c": {"ops": self.ops}}


def build_cases(r, n, steps=(4, 16), get=0.25, ser=0.0, legal=1.0, names=None, focus=None):
    """component builders"""
    for _ in range(n):
        g = Prog(r, legal, names, focus)
        for _ in range(r.randint(*steps)):
            g.comp_step()
            if r.random() < get:
                g.get()
            if r.random() < ser:
                g.ser()
        if get:
            for i in list(g.regs):
                g.ops.append({"op": "get", "r": i, "keys": [T(k) for k in r.sample(FIELD_KEYS, 5)]})
        if ser:
            g.ser()
        yield g.case()


def cal_cases(r, n, steps=(6, 18), cget=0.25, cwrite=0.0, reread=0.0, take=False, legal=1.0, names=None, focus=None, comp=0.45):
    """calendars of components"""
    for _ in range(n):
        g = Prog(r, legal, names, focus)
        for _ in range(r.randint(*steps)):
            if r.random() < comp:
                g.comp_step()
            else:
                g.cal_step()
            if r.random() < cget:
                g.cget()
            if r.random() < cwrite:
                g.cwrite()
        if not g.cals:
            g.cal_step()
        if reread:
            for _ in range(2):
                if r.random() < reread:
                    # what comes back is a calendar like any other, if reading succeeded
                    to = g.creread(True)
        if cget:
            g.cget()
        yield g.case()


def trip_cases(r, n, legal=1.0, focus=None, steps=(3, 10), getters=True):
    """build components, put them into one calendar, write, transport, read, look at the result"""
    for _ in range(n):
        g = Prog(r, legal, None, focus)
        kinds = [r.choice(["event", "event", "todo", "todo", "venue", "other", "audio", "display"]) for _ in range(r.randint(1, 3))]
        for k in kinds:
            g.new(k)
        for _ in range(r.randint(*steps)):
            g.comp_step()
        g.ops = [o for o in g.ops]
        g.add(op="cnew", c=1, via=r.choice(["new", "empty"]))
        g.cals[1] = True
        g.cnext = 2
        pushed = []
        for i in list(g.regs):
            if r.random() < 0.7 or not pushed:
                g.add(op="push", c=1, r=i, via="push")
                pushed.append(g.regs[i])
        for _ in range(r.randint(0, 4)):
            o = r.choice(["cprop", "cset", "cset", "ttl"])
            if o == "cprop":
                g.add(op="cprop", c=1, p=g.prop())
            elif o == "cset":
                f = r.choice(["name", "description", "timezone"])
                g.add(op="cset", c=1, f=f, v=g.text(f != "timezone"))
            else:
                g.add(op="ttl", c=1, dur=dur_value(r, False))
        has_cr = any(13 in x for x in _texts(g.ops))
        r2 = r.random()
        if r2 < 0.3:
            # first read through the unchanged transport, so that everything is complete; then write it again
            g.add(op="creread", c=1, to=2, tr={"lf": 0, "tab": 0, "width": 0, "blank": 0})
            g.add(op="creread", c=2, to=3, tr={"lf": 0, "tab": 0, "width": r.choice([0, 74, 20]), "blank": 0})
            src = 3
        else:
            g.add(op="creread", c=1, to=2, tr={"lf": 0 if has_cr else int(r.random() < 0.35), "tab": int(r.random() < 0.3),
                                               "width": r.choice([0, 0, 0, 74, 40, 7, 2, 1]), "blank": int(r.random() < 0.15)})
            src = 2
        if getters:
            g.add(op="cget", c=src, keys=[T(k) for k in ["NAME", "X-WR-CALNAME", "VERSION"]])
            for j, kind in enumerate(pushed):
                to = 100 + j
                g.add(op="take", c=src, i=j + 1, to=to)
                g.add(op="get", r=to, keys=[T(k) for k in r.sample(FIELD_KEYS, 4)])
        yield g.case()


def _texts(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from _texts(v)
    elif isinstance(x, list):
        if x and all(isinstance(i, int) for i in x):
            yield x
        else:
            for v in x:
                yield from _texts(v)


# ------------------------------------------------------------------ long lines, noise, conversion, calendar data, entry points

def long_cases(r, n):
    """lines whose characters straddle every limit: in the name, in parameters, in values, in calendar data"""
    for _ in range(n):
        k = r.random()
        c = r.choice(WIDE + ["a", " ", "\t", "😀", "中", "é"])
        fill = lambda m: "".join(r.choice(["a", "a", c]) for _ in range(m))
        if k < 0.3:
            # the limit lies somewhere in the parameters
            ps, names = [], []
            for _ in range(r.randint(1, 4)):
                nm = r.choice(PARAM_NAMES[1:])
                if nm not in names:
                    names.append(nm)
                    ps.append([T(nm), T(fill(r.randint(20, 90)) + r.choice(["", ":", ";", ",", "="]) + fill(r.randint(0, 40)))])
            yield case("prop", k=T(r.choice(["X-A", "SUMMARY", "ATTENDEE"])), v=T(fill(r.randint(0, 60))), p=ps)
        elif k < 0.5:
            yield case("prop", k=T("X-" + "N" * r.randint(60, 100)), v=T(fill(r.randint(0, 80))), p=params(r, r.randint(0, 1)))
        elif k < 0.7:
            # an escape at the limit
            m = 75 * r.randint(1, 3) - r.randint(0, 14)
            yield case("prop", k=T(r.choice(["SUMMARY", "DESCRIPTION", "COMMENT"])),
                       v=T("e" * m + r.choice(["\n", ",", ";", "\\", "\\n"]) * r.randint(1, 5) + fill(r.randint(0, 80))), p=[])
        elif k < 0.85:
            m = 75 * r.randint(1, 3) - r.randint(0, 14)
            yield case("prop", k=T("X-A"), v=T("b" * m + c * r.randint(1, 90) + "c" * r.randint(0, 80)), p=[])
        else:
            g = Prog(r)
            g.cal_step_new()
            g.add(op="cset", c=1, f=r.choice(["name", "description", "timezone"]), v=T(near_fold(r, False)))
            g.new("event")
            g.add(op="text", r=1, f=r.choice(["summary", "description", "uid", "url"]), v=T(near_fold(r, False)))
            g.add(op="child", r=1, **{"from": g.new("todo")})
            g.add(op="ser", r=1)
            g.add(op="push", c=1, r=1, via="push")
            g.add(op="cwrite", c=1)
            yield g.case()


NOISE = ["BEGIN:", "END:", "BEGIN", "END", "begin:", "A", "VEVENT", "VCALENDAR", ":", ";", "=", '"', ",", "\\", " ", "\t", "\r\n", "\n", "\r", "\r\n ", "-", ".", "/",
         "_", "1", "é", "日", "😀", "\u00a0", "\u2028", "\0", "\x7f", "'", "%", "X-A", "VALUE=DATE", "P=\"", "a:b", "\ufeff", "\u3000", "\x0b", "\x0c", "\x85"]


def noise_cases(r, n):
    """texts nobody would write"""
    for _ in range(n):
        k = r.random()
        m = pick(r, (5, r.randint(0, 8)), (3, r.randint(9, 40)), (1, r.randint(41, 200)))
        if k < 0.6:
            s = "".join(r.choice(NOISE) for _ in range(m))
        elif k < 0.8:
            s = "".join(chr(r.choice([r.randint(0, 127), r.randint(128, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0x10000, 0x10ffff)])) for _ in range(m))
        else:
            s = transport(r, stream_lines(r, 2))
            for _ in range(r.randint(1, 12)):
                s = mutate_text(r, s, NOISE)
        kind = pick(r, (5, "read"), (2, "line"), (2, "param"), (1, "unfold"))
        if kind == "read":
            yield case("read", text=T(s), full=int(r.random() < 0.3))
        else:
            yield case(kind, text=T(s))


MODEL_NAMES = ["VEVENT", "VTODO", "VVENUE", "VALARM", "VJOURNAL", "VTIMEZONE", "X-C", "vevent", "VEVENT2", "VEVENT", "VTODO", "VVENUE"]


def model_cases(r, n):
    """trees that become calendars: every child kind, nested deeply, properties of the same name"""
    names = ["SUMMARY", "X-A", "COMMENT", "ATTENDEE", "CATEGORIES", "DTSTART", "RDATE", "EXDATE", "ATTACH", "CONTACT", "RESOURCES", "FREEBUSY", "UID", "DTSTAMP",
             "NAME", "comment", "Comment", "COMMENTS", "X-COMMENT", "RRULE", "STATUS", "RELATED-TO"]

    def node(depth):
        few = r.sample(names, r.randint(1, 4))
        items = []
        for _ in range(pick(r, (1, 0), (3, 2), (3, 4), (1, 9))):
            ps = [param_text(r, 0)] if r.random() < 0.3 else []
            items.append(r.choice(few) + "".join(";" + p for p in ps) + ":" + (r.choice(["1", "2", "3", "a\\,b", "a\\nb", ""]) if r.random() < 0.8 else raw_value(r)))
        if depth > 0:
            for _ in range(pick(r, (2, 0), (3, 1), (2, 2), (1, 3))):
                items.insert(r.randint(0, len(items)), node(depth - 1))
        return (r.choice(MODEL_NAMES), items)

    for _ in range(n):
        props = []
        for _ in range(pick(r, (1, 0), (2, 2), (1, 5), (0.3, 12))):
            props.append(r.choice(["VERSION:2.0", "NAME:a", "NAME:b\\,c", "X-WR-CALNAME:w", "METHOD:PUBLISH", "X-A;P=q:1", "COMMENT:1", "COMMENT:2", "PRODID:x", "SUMMARY:s",
                                   "TIMEZONE-ID:z", "VERSION:3.0", "X-A:2"]))
        kids = [node(r.randint(0, 3)) for _ in range(pick(r, (1, 0), (2, 1), (3, 2), (2, 4)))]
        root = ("VCALENDAR", props + kids)
        k = r.random()
        if k < 0.75:
            roots = [root]
        elif k < 0.9:
            roots = kids or [root]
        else:
            roots = [root] + [("VCALENDAR", ["X-B:1", node(0)])]
        lines = []
        for t in roots:
            lines += tree_lines(t)
        yield case("read", text=T(transport(r, lines, blank=0.01)), full=1)


META_KEYS = {"name": ["NAME", "X-WR-CALNAME"], "description": ["DESCRIPTION", "X-WR-CALDESC"], "timezone": ["TIMEZONE-ID", "X-WR-TIMEZONE"],
             "ttl": ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"]}


def meta_cases(r, n):
    """name, description, time zone and refresh interval: set, standard and X- forms, written, read, written by others"""
    for _ in range(n):
        k = r.random()
        if k < 0.75:
            ops = [{"op": "cnew", "c": 1, "via": r.choice(["new", "empty", "default"])}]
            for _ in range(r.randint(1, 5)):
                f = r.choice(list(META_KEYS))
                j = r.random()
                if f == "ttl":
                    if j < 0.5:
                        ops.append({"op": "ttl", "c": 1, "dur": dur_value(r, False)})
                    else:
                        v = dur_text(r) if r.random() < 0.7 else r.choice(["", "soon", "P", "PT", "P1Y", "20240101", "1D", "PT1.5S"])
                        ps = [[T("VALUE"), T("DURATION")]] if r.random() < 0.5 else []
                        ops.append({"op": "cprop", "c": 1, "p": {"k": T(r.choice(META_KEYS[f])), "v": T(v), "p": ps}})
                else:
                    v = T(text(r, breaks=f != "timezone", long=r.random() < 0.2))
                    if j < 0.5:
                        ops.append({"op": "cset", "c": 1, "f": f, "v": v})
                    else:
                        ps = [[T("LANGUAGE"), T("de")]] if r.random() < 0.2 else []
                        ops.append({"op": "cprop", "c": 1, "p": {"k": T(r.choice(META_KEYS[f])), "v": v, "p": ps}})
                if r.random() < 0.3:
                    ops.append({"op": "cget", "c": 1, "keys": [T(x) for x in META_KEYS[f]]})
            ops.append({"op": "cget", "c": 1, "keys": [T(x) for x in r.choice(list(META_KEYS.values()))]})
            cr = any(13 in x for x in _texts(ops))
            ops.append({"op": "creread", "c": 1, "to": 2, "tr": {"lf": 0 if cr else int(r.random() < 0.3), "tab": 0, "width": r.choice([0, 0, 40, 9]), "blank": 0}})
            ops.append({"op": "cget", "c": 2, "keys": [T(x) for x in r.choice(list(META_KEYS.values()))]})
            yield {"k": "prog", "c": {"ops": ops}}
        else:
            # the calendar of one program is continued by another
            ops = [{"op": "cnew", "c": 1, "via": "new"}, {"op": "cnew", "c": 2, "via": "empty"}]
            for c in (1, 2, 1):
                f = r.choice(["name", "description", "timezone"])
                ops.append({"op": "cset", "c": c, "f": f, "v": T(text(r, breaks=False, long=False))})
            ops.append(r.choice([{"op": "cappend", "c": 1, "from": 2}, {"op": "cdone", "c": 1, "to": 3}, {"op": "ttl", "c": 2, "dur": dur_value(r, False)}]))
            ops += [{"op": "cget", "c": 1, "keys": []}, {"op": "cget", "c": 2, "keys": []}]
            yield {"k": "prog", "c": {"ops": ops}}


BREAKS = ["\r\n", "\r\n ", "\r\n\t", "\n", "\n ", "\n\t", "\r", "\r ", "\r\nEND:VEVENT\r\n", "\r\nBEGIN:A\r\n", "\r\nUID:1", "\r\nDTSTAMP:2", "\r\n\r\n", '"', "\r\r\n"]


def broken_cases(r, n):
    """components with line breaks where there should be none: the text is no iCalendar, but it is the same whichever way it is written"""
    for _ in range(n):
        def bad():
            return "".join(r.choice([r.choice(BREAKS), r.choice(BREAKS), text(r, long=r.random() < 0.2), "a" * r.choice([1, 60, 70, 75])]) for _ in range(r.randint(1, 5)))
        g = Prog(r)
        for _ in range(r.randint(1, 2)):
            i = g.new()
            if r.random() < 0.85:
                g.add(op="text", r=i, f="uid", v=T("u%d" % i))
                g.add(op="stamp", r=i, f="timestamp", v=date_value(r, "utc"))
            for _ in range(r.randint(1, 3)):
                p = {"k": T(r.choice(["X-A", "URL", "SUMMARY", "ATTENDEE", "DTSTART", "a b", "X:Y", "", "É"])), "v": T(bad()),
                     "p": [[T(r.choice(["P", "VALUE", "A B", ""])), T(bad())]] if r.random() < 0.4 else []}
                g.add(op=r.choice(["append", "append", "multi"]), r=i, p=p, via="append")
            g.add(op="ser", r=i)
        if len(g.regs) > 1 and r.random() < 0.5:
            g.add(op="child", r=2, **{"from": 1})
            g.add(op="ser", r=2)
        c = g.cal_step_new()
        if r.random() < 0.3:
            g.add(op="cprop", c=c, p={"k": T(r.choice(["X-A", "A B"])), "v": T(bad()), "p": []})
        for i in g.regs:
            g.add(op="push", c=c, r=i, via="push")
        g.add(op="cwrite", c=c)
        yield g.case()


def entry_cases(r, n):
    """what several entry points answer: component and calendar written in every way, streams with one or more roots"""
    for _ in range(n):
        k = r.random()
        if k < 0.4:
            g = Prog(r)
            for _ in range(r.randint(1, 3)):
                g.new()
            for _ in range(r.randint(2, 8)):
                g.comp_step()
            for i in list(g.regs):
                if r.random() < 0.5:
                    # complete, so that all texts must be equal
                    g.add(op="text", r=i, f="uid", v=T("u%d" % i))
                    g.add(op="stamp", r=i, f="timestamp", v=date_value(r, "utc"))
                g.add(op="ser", r=i)
                if r.random() < 0.3:
                    g.add(op="ser", r=i)
            g.cal_step_new()
            for i in list(g.regs):
                g.add(op="push", c=1, r=i, via=r.choice(["push", "add"]))
            g.add(op="cwrite", c=1)
            g.add(op="cwrite", c=1)
            yield g.case()
        else:
            names = ["VCALENDAR", "VCALENDAR", "VEVENT", "VTODO", "VVENUE", "X-C", "vcalendar"]
            lines = []
            for _ in range(pick(r, (4, 1), (2, 2), (1, 3), (0.5, 0))):
                lines += tree_lines(tree(r, r.randint(0, 2), names, 0.5))
            if r.random() < 0.3:
                lines = break_lines(r, lines)
            yield case("read", text=T(transport(r, lines)), full=1)


# ------------------------------------------------------------------ literals of the source in every role

def word_forms():
    out = []
    for w in words.NAMES:
        for f in (w, w.lower(), w.upper()):
            if f not in out and f.upper() not in ("BEGIN", "END"):
                out.append(f)
    return out


def word_streams():
    """every word as the name of a component, of a property, of a parameter and as a value"""
    for w in word_forms():
        inner = ["BEGIN:" + w, w + ":" + w, "%s;%s=%s:%s" % (w, w, w, w), 'X-A;X-B="%s":%s' % (w, w), "BEGIN:X", w + ":1", "END:X", "END:" + w]
        yield case("read", text=T("\r\n".join(inner) + "\r\n"), full=1)
        yield case("read", text=T("\r\n".join(["BEGIN:VCALENDAR", w + ":" + w] + inner + ["BEGIN:VEVENT", w + ":" + w, "SUMMARY;%s=a:%s" % (w, w)] + inner
                                               + ["END:VEVENT", "END:VCALENDAR"]) + "\r\n"), full=1)


def word_props():
    for w in word_forms():
        for p in ([], [[T(w), T(w)]], [[T("X-P"), T(w)], [T(w), T("a")]], [[T("VALUE"), T(w)]]):
            yield case("prop", k=T(w), v=T(w), p=p)
        yield case("line", text=T("%s;%s=%s:%s" % (w, w, w, w)))
    for s in words.STRINGS + words.CHARS:
        yield case("prop", k=T("SUMMARY"), v=T(s), p=[])
        if "\n" not in s and "\r" not in s:
            yield case("prop", k=T("X-A"), v=T(s), p=[[T("X-P"), T(s.replace('"', ""))]])
            yield case("line", text=T("SUMMARY:" + s))
            yield case("line", text=T('X-A;P="%s":%s' % (s.replace('"', ""), s)))


def word_programs():
    """built with every word, written, read"""
    for w in word_forms():
        ops = [{"op": "new", "r": 1, "kind": "event"}, {"op": "new", "r": 2, "kind": "other", "name": T(w)}, {"op": "new", "r": 3, "kind": "todo"}]
        for i in (1, 2):
            ops += [{"op": "append", "r": i, "p": {"k": T(w), "v": T(w), "p": [[T(w), T(w)]]}, "via": "append"} if w not in REPEATABLE else
                    {"op": "multi", "r": i, "p": {"k": T(w), "v": T(w), "p": []}, "via": "append"},
                    {"op": "text", "r": i, "f": "summary", "v": T(w)}, {"op": "text", "r": i, "f": "uid", "v": T(w)}]
        ops += [{"op": "multi", "r": 3, "p": {"k": T("COMMENT"), "v": T(w), "p": [[T("X-P"), T(w)]]}, "via": "append"}, {"op": "child", "r": 1, "from": 2}, {"op": "child", "r": 2, "from": 3},
                {"op": "cnew", "c": 1, "via": "new"}, {"op": "cset", "c": 1, "f": "name", "v": T(w)}, {"op": "cset", "c": 1, "f": "timezone", "v": T(w)},
                {"op": "cprop", "c": 1, "p": {"k": T(w), "v": T(w), "p": []}},
                {"op": "push", "c": 1, "r": 1, "via": "push"}, {"op": "push", "c": 1, "r": 2, "via": "push"}, {"op": "ser", "r": 1}, {"op": "ser", "r": 2}, {"op": "cwrite", "c": 1},
                {"op": "creread", "c": 1, "to": 2, "tr": {"lf": 0, "tab": 0, "width": 0, "blank": 0}}, {"op": "cget", "c": 2, "keys": [T(w)]},
                {"op": "take", "c": 2, "i": 1, "to": 9}, {"op": "get", "r": 9, "keys": [T(w), T("SUMMARY"), T("UID")]}]
        yield {"k": "prog", "c": {"ops": ops}}


def name_streams():
    """components with nearly the names that mean something"""
    for w in ("VCALENDAR", "VEVENT", "VTODO", "VVENUE", "VALARM", "BEGIN", "END"):
        for v in words.around(w):
            if not v or not all(c.isascii() and (c.isalnum() or c in "-_./") for c in v):
                continue
            inner = ["BEGIN:" + v, "DTSTAMP:20240101T000000Z", "UID:1", "COMMENT:1", "COMMENT:2", "BEGIN:" + w, "UID:2", "END:" + w, "END:" + v]
            yield case("read", text=T("\r\n".join(inner) + "\r\n"), full=1)
            yield case("read", text=T("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0"] + inner + ["BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR"]) + "\r\n"), full=1)
            # closed under nearly its name
            yield case("read", text=T("\r\n".join(["BEGIN:" + w, "UID:1", "END:" + v, "END:" + w]) + "\r\n"), full=0)
            yield case("read", text=T("\r\n".join(["BEGIN:" + v, "UID:1", "END:" + w]) + "\r\n"), full=0)


# ------------------------------------------------------------------ parse trees made by hand, their texts, printing

def pp(r, legal=True, names=None):
    p = prop(r, legal, names)
    ps = []
    for k, v in p["p"]:
        has = 1 if v else 0
        if not legal and r.random() < 0.1:
            has = 1 - has
            v = v if has else []
        ps.append([k, has, v])
    if not legal and r.random() < 0.1 and ps:
        ps.append(ps[0])
    return {"n": p["k"], "v": p["v"], "p": ps}


def node(r, depth, legal=True, names=None):
    n = (r.choice(names or COMP_NAMES[:14]) if r.random() < 0.85 else words.word(r)) if legal or r.random() < 0.9 else text(r, long=False)
    reps = [r.choice(REPEATABLE + ["X-A", "RELATED-TO", "SUMMARY"]) for _ in range(2)]
    return {"n": T(n),
            "props": [pp(r, legal, reps if r.random() < 0.25 else None) for _ in range(pick(r, (2, 0), (3, 1), (3, 2), (2, 4), (1, 8)))],
            "comps": [node(r, depth - 1, legal) for _ in range(pick(r, (3, 0), (3, 1), (1, 2), (0.5, 3)))] if depth > 0 else []}


def tree_cases(r, n, legal=0.8):
    for _ in range(n):
        yield case("tree", tree=dict(node(r, r.randint(0, 3), r.random() < legal), n=T("VCALENDAR")), owned=r.randint(0, 1))


def text_cases(r, n):
    for _ in range(n):
        k = r.random()
        if k < 0.5:
            s = "".join(r.choice(["\\", "n", "N", ",", ";", ":", "a", "é", "\n", "日", "\"", " ", "\r"]) for _ in range(r.randint(0, 9)))
        elif k < 0.7:
            s = words.piece(r)
        else:
            s = text(r, cr=True)
        yield case("text", text=T(s))


def print_cases(r, n):
    for _ in range(n):
        lines = stream_lines(r, 2, 0.5)
        if r.random() < 0.1:
            lines = break_lines(r, lines)
        yield case("print", text=T(transport(r, lines)))


EVERY = [chr(c) for c in list(range(0, 0xa1)) + [0xad, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x2060, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]]


def every_unfold():
    """every character below U+00A1 and some above, at the ends of a text and of its lines"""
    for c in EVERY:
        for s in ("{0}", "{0}{0}", "A:b{0}", "{0}A:b", "A:b{0}\r\n", "A:b\r\n{0}", "A:b{0}\r\n c", "A:b\r\n {0}c", "A:b\n{0}\tc", "A:b{0}\n\tc\n{0}", "A:\r\n{0} b"):
            yield case("unfold", text=T(s.format(c)))


def every_read():
    """the same characters at the ends of a stream, of its lines, values, names and parameters"""
    for c in EVERY:
        for s in ("{0}BEGIN:X\r\nA:b\r\nEND:X\r\n", "BEGIN:X\r\nA:b\r\nEND:X\r\n{0}", "BEGIN:X\r\nA:b\r\nEND:X{0}", "BEGIN:X\r\nA:{0}b{0}\r\nEND:X\r\n",
                  "BEGIN:X\r\nA;P={0}q{0}:b\r\nEND:X\r\n", "BEGIN:X\r\nA;P=\"{0}q{0}\":b\r\nEND:X\r\n"):
            yield case("read", text=T(s.format(c)), full=0)


def every_props():
    """the same characters in values and parameters that are written"""
    for c in EVERY:
        for s in (c, c + "a" + c, c + c + "a", "a" + c + c + "b", "\\" + c, c + "\\", "n" + c + "N", ";" + c + ","):
            yield case("prop", k=T("SUMMARY"), v=T(s), p=[])
            if c not in "\r\n":
                yield case("prop", k=T("X-A"), v=T(s), p=[[T("X-P"), T(s)]] if c not in '"' else [])
                yield case("prop", k=T("SUMMARY"), v=T(s), p=[[T("VALUE"), T("TEXT")]])
                yield case("line", text=T("SUMMARY:" + s))
                if c not in '"':
                    yield case("line", text=T('X-A;P="%s":%s' % (s, s)))


def every_programs():
    """the same characters in what is built, written, read and got"""
    for i in range(0, len(EVERY), 2):
        a, b = (EVERY + ["a"])[i:i + 2]
        if a in "\r\n" or b in "\r\n":
            a, b = a.replace("\r", "a").replace("\n", "b"), b.replace("\r", "a").replace("\n", "b")
        v, w = T(a + "x" + b), T(b + "x" + a)
        ops = [{"op": "new", "r": 1, "kind": "event"}, {"op": "new", "r": 2, "kind": "todo"}]
        for j, f in ((1, "summary"), (1, "uid"), (2, "description"), (2, "uid"), (1, "url")):
            ops.append({"op": "text", "r": j, "f": f, "v": v if j == 1 else w})
        ops += [{"op": "multi", "r": 1, "p": {"k": T("COMMENT"), "v": w, "p": []}, "via": "append"}, {"op": "multi", "r": 1, "p": {"k": T("COMMENT"), "v": v, "p": []}, "via": "append"},
                {"op": "append", "r": 2, "p": {"k": T("X-A"), "v": v, "p": []}, "via": "append"},
                {"op": "cnew", "c": 1, "via": "new"}, {"op": "cset", "c": 1, "f": "name", "v": v}, {"op": "cset", "c": 1, "f": "description", "v": w}, {"op": "cset", "c": 1, "f": "timezone", "v": w},
                {"op": "push", "c": 1, "r": 1, "via": "push"}, {"op": "push", "c": 1, "r": 2, "via": "push"}, {"op": "ser", "r": 1}, {"op": "cwrite", "c": 1},
                {"op": "creread", "c": 1, "to": 2, "tr": {"lf": i // 2 % 2, "tab": 0, "width": 0, "blank": 0}}, {"op": "cget", "c": 2, "keys": [T("X-WR-CALNAME")]},
                {"op": "take", "c": 2, "i": 1, "to": 9}, {"op": "get", "r": 9, "keys": [T("SUMMARY"), T("UID"), T("COMMENT")]}]
        yield {"k": "prog", "c": {"ops": ops}}


def every_print():
    """the same characters in what is printed"""
    marks = [c for c in EVERY if c not in "\r\n"]
    for i in range(0, len(marks), 4):
        g = marks[i:i + 4]
        q = [c for c in g if c != '"']
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "X-A:" + g[0], "BEGIN:VEVENT", "UID:1", "DTSTAMP:20240101T000000Z"]
        lines += ["X-%d:a%sb%s" % (j, c, c) for j, c in enumerate(g)] + ['X-P%d;Q="%sq%s":v' % (j, c, c) for j, c in enumerate(q)]
        yield case("print", text=T("\r\n".join(lines + ["END:VEVENT", "END:VCALENDAR"]) + "\r\n"))


# ------------------------------------------------------------------ big ones

MARKS = [":", ";", ",", "\n", "\\", '"', "=", " ", "\t", "é", "日", "😀", "\\n", "\\,", "N", "x"]


def stretch(r, m, drop="", about=()):
    """long, with something special only at the end, at the start, somewhere, now and then, or everywhere"""
    marks = [c for c in MARKS if not any(x in c for x in drop)]
    mark = r.choice(about) if about and r.random() < 0.6 else r.choice(marks) if r.random() < 0.85 else words.piece(r)
    mark = "".join(c for c in mark if c not in drop)
    fill = r.choice(["a", "a", "b", "ab", "é", " ", "😀"])
    k = r.random()
    if k < 0.33:
        s = fill * m + mark + r.choice(["", "z", mark])
    elif k < 0.4:
        s = mark + fill * m
    elif k < 0.5:
        i = r.randint(0, m)
        s = fill * i + mark + fill * (m - i)
    elif k < 0.65:
        step = r.choice([2, 3, 10, 40])
        s = "".join(mark if i % step == 0 else fill for i in range(m))
    elif k < 0.85:
        s = (mark + r.choice(["", fill])) * m
    else:
        s = "".join(r.choice([mark, fill, r.choice(marks)]) for _ in range(m))
    return s


def big_size(r, top):
    return words.size(r, top) if r.random() < 0.7 else r.randint(2, top)


BIG = ["marks", "params", "value", "paramvalue", "name", "repeats", "props", "comps", "children", "deep", "roots", "linevalue", "lineparams", "treebig", "calprops", "same"]


def big_cases(r, n, top=300, kinds=None):
    """one thing in great number or of great length"""
    kinds = kinds or BIG
    for i in range(n):
        kind = kinds[i % len(kinds)]
        m = big_size(r, top)
        if kind == "marks":
            # one long text in some role
            m = m if r.random() < 0.7 else m * 4
            k = r.random()
            if k < 0.35:
                n = r.choice(["SUMMARY", "DESCRIPTION", "X-A", "URL", "COMMENT"])
                yield case("prop", k=T(n), v=T(stretch(r, m, *(["\r", "\n,;\\"] if n not in ("X-A", "URL") else ["\r\n", ",;\\"]))), p=[])
            elif k < 0.6:
                yield case("prop", k=T(r.choice(["SUMMARY", "X-A"])), v=T(r.choice(["v", "", "a:b"])),
                           p=[[T("ALTREP"), T(stretch(r, m, '\r\n"', ":;"))]] + ([[T("CN"), T(stretch(r, m // 4, '\r\n"'))]] if r.random() < 0.3 else []))
            elif k < 0.75:
                yield case("line", text=T(r.choice(["SUMMARY:", "X-A:", "COMMENT;P=1:"]) + stretch(r, m, "\r\n", ["\\n", "\\,", "\\\\", ":"])))
            elif k < 0.9:
                yield case("line", text=T('X-A;P="' + stretch(r, m, '\r\n"', ":;,") + '"' + r.choice(["", ";Q", ";Q=1"]) + ":v"))
            else:
                yield case("read", text=T(transport(r, ["BEGIN:VEVENT", r.choice(["SUMMARY:", "X-A;P=1:", "DESCRIPTION:"]) + stretch(r, m, "\r\n"), "END:VEVENT"])), full=1)
            continue
        if kind == "params":
            yield case("prop", k=T(r.choice(["SUMMARY", "X-A", "ATTENDEE"])), v=T("v"), p=[[T("P%d" % j), T(r.choice(["a", "b:c", "d;e", ""]))] for j in range(min(m, 120))])
        elif kind == "value":
            yield case("prop", k=T(r.choice(["SUMMARY", "X-A", "DESCRIPTION", "URL"])), v=T(r.choice(["a", "é", "日", "😀", " ", "ab c"]) * (m * 8)), p=[])
        elif kind == "paramvalue":
            yield case("prop", k=T("X-A"), v=T("v"), p=[[T("ALTREP"), T(r.choice(["a", "é", ":", "日", "x y"]) * (m * 5))]])
        elif kind == "name":
            yield case("line", text=T("X" * (m * 4) + ";P=" + "q" * m + ":1"))
        elif kind in ("repeats", "props", "comps", "children", "calprops"):
            ops = [{"op": "new", "r": 1, "kind": r.choice(["event", "todo", "venue"])}, {"op": "text", "r": 1, "f": "uid", "v": T("u")},
                   {"op": "stamp", "r": 1, "f": "timestamp", "v": {"f": "utc", "y": 2024, "m": 1, "d": 2, "H": 3, "M": 4, "S": 5}},
                   {"op": "cnew", "c": 1, "via": "new"}]
            k = min(m, 40)
            if kind == "repeats":
                ops += [{"op": "multi", "r": 1, "p": {"k": T("COMMENT"), "v": T("%d" % j), "p": []}, "via": "append"} for j in range(k)]
            elif kind == "props":
                ops += [{"op": "append", "r": 1, "p": {"k": T("X-%d" % j), "v": T("%d" % j), "p": []}, "via": "append"} for j in range(k)]
            elif kind == "children":
                ops += [{"op": "new", "r": 2, "kind": "todo"}] + [x for j in range(k) for x in ({"op": "text", "r": 2, "f": "summary", "v": T("%d" % j)}, {"op": "child", "r": 1, "from": 2})]
            elif kind == "calprops":
                ops += [{"op": "cprop", "c": 1, "p": {"k": T("X-%d" % (j % 7)), "v": T("%d" % j), "p": []}} for j in range(k)]
            if kind == "comps":
                ops += [{"op": "new", "r": 2, "kind": "todo"}, {"op": "text", "r": 2, "f": "summary", "v": T("s")},
                        {"op": "extend", "c": 1, "rs": [r.choice([1, 2]) for _ in range(m)], "via": "items"}]
                if r.random() < 0.5:
                    ops += [{"op": "cnew", "c": 2, "via": "new"}, {"op": "extend", "c": 2, "rs": [1, 2] * (m // 4), "via": "items"}, {"op": "cappend", "c": 1, "from": 2}]
            else:
                ops += [{"op": "push", "c": 1, "r": 1, "via": "push"}, {"op": "ser", "r": 1}]
            ops += [{"op": "cwrite", "c": 1}, {"op": "cget", "c": 1, "keys": [T("VERSION"), T("X-3")]},
                    {"op": "creread", "c": 1, "to": 3, "tr": {"lf": 0, "tab": 0, "width": 0, "blank": 0}}]
            yield {"k": "prog", "c": {"ops": ops}}
        elif kind == "deep":
            d = min(m, 50)  # JSON readers allow no more than 128 levels of JSON
            names = [r.choice(["VEVENT", "VTODO", "X", "VALARM"]) for _ in range(d)]
            lines = [x for nm in names for x in ("BEGIN:" + nm, "X-A:1")] + [x for nm in reversed(names) for x in (["COMMENT:2"] if r.random() < 0.2 else []) + ["END:" + nm]]
            yield case("read", text=T("\r\n".join(lines) + "\r\n"), full=1)
        elif kind == "roots":
            lines = [x for j in range(m) for x in ("BEGIN:VEVENT", "UID:%d" % j, "END:VEVENT")]
            if r.random() < 0.5:
                lines = ["BEGIN:VCALENDAR"] + lines + ["END:VCALENDAR"]
            yield case("read", text=T("\r\n".join(lines) + "\r\n"), full=1)
        elif kind == "linevalue":
            v = r.choice(["a", "é", "\\n", "\\,", "\\\\", "日", " ", "x;y", ":"]) * (m * 8)
            if r.random() < 0.5:
                yield case("line", text=T(r.choice(["SUMMARY:", "X-A:"]) + v))
            else:
                yield case("read", text=T(transport(r, ["BEGIN:VEVENT", r.choice(["SUMMARY:", "X-A;P=1:"]) + v, "END:VEVENT"])), full=0)
        elif kind == "lineparams":
            yield case("line", text=T("X-A" + "".join(';P%d=%s' % (j, r.choice(["a", '"b:c"', ""])) for j in range(min(m, 200))) + ":v"))
        elif kind == "same":
            lines = ["BEGIN:VEVENT"] + [r.choice(["COMMENT", "ATTENDEE;CN=a", "SUMMARY", "X-A"]) + ":%d" % j for j in range(m)] + ["END:VEVENT"]
            yield case("read", text=T("\r\n".join(lines) + "\r\n"), full=1)
        else:
            props = [{"n": T("X-%d" % j), "v": T("v" * (j % 90)), "p": [[T("P"), 1, T("q")]] if j % 5 == 0 else []} for j in range(m // 2)]
            comps = [{"n": T("VEVENT"), "props": props[:j % 4], "comps": []} for j in range(m // 4)]
            yield case("tree", tree={"n": T("VCALENDAR"), "props": props, "comps": comps}, owned=i % 2)


LONG_KINDS = ["htext", "hraw", "hparam", "hline", "hstream"]
MANY_KINDS = ["hroots", "hcal", "hsame", "hparams", "hpparams", "hextend"]


def huge_cases(r, n, kinds):
    """lengths and numbers that nobody tries, and those named in the source"""
    for i in range(n):
        kind = kinds[i % len(kinds)]
        if kind in LONG_KINDS:
            m = r.choice([70001, r.choice(words.HUGE), r.choice(words.HUGE)])
            unit = r.choice(["a", "ab c", "é", "😀b", "a,", ": ", "x\\"])
            s = unit * (m // len(unit)) + "z" * (m % len(unit))
            if kind == "htext":
                yield case("prop", k=T(r.choice(["SUMMARY", "DESCRIPTION"])), v=T(s + r.choice(["", "\n", ";"])), p=[])
            elif kind == "hraw":
                yield case("prop", k=T(r.choice(["X-A", "URL"])), v=T(s), p=[])
            elif kind == "hparam":
                yield case("prop", k=T("X-A"), v=T("v"), p=[[T("P"), T(s + r.choice(["", ":", ";"]))]])
            elif kind == "hline":
                yield case("line", text=T(r.choice(["SUMMARY:", "X-A:", 'X-A;P="a:b":']) + s))
            else:
                yield case("read", text=T(transport(r, ["BEGIN:VEVENT", "X-A:" + s, "COMMENT:1", "END:VEVENT"])), full=0)
            continue
        slow = kind in ("hsame", "hparams", "hpparams")
        m = r.choice([x for x in words.HUGE if x <= (1500 if slow else 3000)] + [1500 if slow else 3000])
        if kind in ("hroots", "hcal"):
            lines = [x for j in range(m) for x in ("BEGIN:VEVENT", "UID:%d" % j, "END:VEVENT")]
            yield case("read", text=T("\r\n".join(["BEGIN:VCALENDAR"] * (kind == "hcal") + lines + ["END:VCALENDAR"] * (kind == "hcal")) + "\r\n"), full=0)
        elif kind == "hsame":
            yield case("read", text=T("\r\n".join(["BEGIN:VEVENT"] + [r.choice(["COMMENT", "ATTENDEE", "SUMMARY"]) + ":%d" % j for j in range(m)] + ["END:VEVENT"]) + "\r\n"), full=0)
        elif kind == "hparams":
            yield case("line", text=T("X-A" + "".join(";P%d=%d" % (j, j) for j in range(m)) + ":v"))
        elif kind == "hpparams":
            yield case("prop", k=T("X-A"), v=T("v"), p=[[T("P%d" % j), T("%d" % j)] for j in range(m)])
        else:
            yield {"k": "prog", "c": {"ops": [
                {"op": "new", "r": 1, "kind": "event"}, {"op": "text", "r": 1, "f": "uid", "v": T("u")},
                {"op": "stamp", "r": 1, "f": "timestamp", "v": {"f": "utc", "y": 2024, "m": 1, "d": 2, "H": 3, "M": 4, "S": 5}}, {"op": "new", "r": 2, "kind": "todo"},
                {"op": "cnew", "c": 1, "via": "new"}, {"op": "extend", "c": 1, "rs": [r.choice([1, 1, 1, 2]) for _ in range(m)], "via": r.choice(["items"] + POURED)},
                {"op": "cwrite", "c": 1}, {"op": "cget", "c": 1, "keys": []}, {"op": "creread", "c": 1, "to": 3, "tr": {"lf": 0, "tab": 0, "width": 0, "blank": 0}}]}}


# ------------------------------------------------------------------ depth and likeness

def deep_cases(r, n, top=300):
    """components inside of one another, too deep to be recorded as a tree"""
    for i in range(n):
        d = max(1, words.size(r, top) if r.random() < 0.6 else r.randint(1, top))
        ends = d if r.random() < 0.88 else max(0, d + r.choice([-1, 1, -d, 2]))
        yield case("deep", name=T(r.choice(["VEVENT", "VTODO", "VALARM", "A", "X-LONG-NAME", "VVENUE", "v.e", "VTIMEZONE", "VCALENDAR"])), depth=d, ends=ends,
                   pre=r.choice([0, 0, 1, 2]), post=r.choice([0, 0, 1, 2]), all=1)


def uids_cases(r, n):
    """the same calendar written by several threads and several processes"""
    for i in range(n):
        m = r.choice([1, 1, 2, 3, 5, 12])
        kinds = [r.choice(["VEVENT", "VTODO", "VVENUE", "X-A"]) for _ in range(m)] if r.random() < 0.5 else [r.choice(["VEVENT", "VTODO"])] * m
        yield case("uids", kinds=[T(k) for k in kinds], threads=r.choice([0, 1, 2, 4, 8]), procs=r.choice([1, 2, 2, 3, 4]))


def alike_cases(r, n):
    """the same component, or one that differs in one thing only, several times as child and in the calendar"""
    for _ in range(n):
        uid, text = r.choice(["u", "", "1"]), r.choice(["s", "", "a,b"])
        ops = [{"op": "new", "r": 1, "kind": r.choice(["event", "todo", "venue"])},
               {"op": "new", "r": 2, "kind": r.choice(["event", "todo", "venue"])}]
        if r.random() < 0.3:
            ops[1] = {"op": "new", "r": 2, "kind": "audio", "trig": {"dur": {"neg": True, "digits": T("60")}}}
        for i in (1, 2):
            if r.random() < 0.8:
                ops.append({"op": "text", "r": i, "f": "uid", "v": T(uid)})
            if r.random() < 0.6:
                ops.append({"op": "text", "r": i, "f": "summary", "v": T(text)})
            if r.random() < 0.6:
                ops.append({"op": "stamp", "r": i, "f": "timestamp", "v": {"f": "utc", "y": 2024, "m": 1, "d": 2, "H": 3, "M": 4, "S": 5}})
        ops.append({"op": "cnew", "c": 1, "via": r.choice(["new", "empty"])})
        same = {"k": T(r.choice(["COMMENT", "ATTENDEE", "X-A", "SUMMARY"])), "v": T(r.choice(["", "a"])), "p": []}
        for _ in range(r.randint(4, 10)):
            k = r.choice(["child", "child", "child", "push", "push", "extend", "multi", "append", "cprop", "change"])
            if k == "child":
                ops.append({"op": "child", "r": 1, "from": 2})
            elif k == "push":
                ops.append({"op": "push", "c": 1, "r": r.choice([1, 2]), "via": r.choice(["push", "add"])})
            elif k == "extend":
                ops.append({"op": "extend", "c": 1, "rs": [r.choice([1, 2]) for _ in range(r.randint(0, 4))], "via": r.choice(["items"] + POURED)})
            elif k in ("multi", "append"):
                ops.append({"op": k, "r": r.choice([1, 2]), "p": same, "via": r.choice(["append", "add"])})
            elif k == "cprop":
                ops.append({"op": "cprop", "c": 1, "p": same})
            else:
                ops.append({"op": "text", "r": 2, "f": r.choice(["summary", "description"]), "v": T(r.choice(["s", "t"]))})
        ops += [{"op": "push", "c": 1, "r": 1, "via": "push"}, {"op": "get", "r": 1, "keys": []}, {"op": "ser", "r": 1}, {"op": "cget", "c": 1, "keys": [same["k"]]}, {"op": "cwrite", "c": 1},
                {"op": "creread", "c": 1, "to": 3, "tr": {"lf": 0, "tab": 0, "width": 0, "blank": 0}}]
        yield {"k": "prog", "c": {"ops": ops}}
