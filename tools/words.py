"""Words and numbers that occur as literals in the source of the library: inputs made of them reach what treats them specially.
Only inputs are made of them; what is right for an input is said by the specification alone."""
import os
import re

SRC = "/repo/src"


def _source():
    for top, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".rs"):
                try:
                    with open(os.path.join(top, f), encoding="utf-8") as h:
                        yield h.read()
                except (OSError, UnicodeDecodeError):
                    pass


def around(w):
    """texts that are nearly the word"""
    yield from (w[:i] + w[i + 1:] for i in range(len(w)))
    yield from (w[:i] + w[i] + w[i:] for i in range(len(w)))
    yield from (w[:i] + w[i].lower() + w[i + 1:] for i in range(len(w)))
    yield from (x + w for x in " \t\n-_+.X\"\u00a0\ufeff")
    yield from (w + x for x in " \t\n\r-_+.;,:12XSD\"\u00a0\0")
    yield from (w.replace("-", x) for x in ("", " ", "_", "\u2010", "--") if "-" in w)
    yield from ("X-" + w, "IANA-" + w, w + "-" + w, w + " " + w, w + "," + w, w.lower(), w.title())


ESCAPES = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def _unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    s = re.sub(r"\\u\{([0-9a-fA-F_]{1,6})\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)), s)
    s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r"\\(.)", lambda m: ESCAPES.get(m.group(1), m.group(1)), s, flags=re.S)


def _collect():
    strings, chars, numbers = set(), set(), set()
    for text in _source():
        text = re.sub(r"^\s*//.*$", "", text, flags=re.M)
        for m in re.finditer(r'r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"', text, re.S):
            s = m.group(2) if m.group(2) is not None else _unescape(m.group(3))
            if 0 < len(s) <= 40:
                strings.add(s)
        for m in re.finditer(r"b?'((?:[^'\\\n]|\\[^u]|\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}))'", text):
            chars.add(_unescape(m.group(1)))
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.])", text):
            n = int(m.group(1).replace("_", ""))
            if 2 <= n <= 10 ** 12:
                numbers.add(n)
        for m in re.finditer(r"0x([0-9a-fA-F_]+)", text):
            n = int(m.group(1).replace("_", ""), 16)
            if 2 <= n <= 10 ** 12:
                numbers.add(n)
    ok = lambda s: not any(0xD800 <= ord(c) <= 0xDFFF for c in s)
    return sorted(filter(ok, strings)), sorted(filter(ok, chars)), sorted(numbers)


STRINGS, CHARS, NUMBERS = _collect()
NAMES = [s for s in STRINGS if re.fullmatch(r"[A-Za-z0-9-]+", s)]
SIZES = sorted({n + d for n in NUMBERS for d in (-1, 0, 1) if 2 <= n <= 600} | {2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257})
HUGE = sorted({n + d for n in NUMBERS for d in (0, 1) if 600 < n <= 70000} | {1000, 1024, 1025, 2000, 4096, 4097, 8193, 10001, 16385, 32769, 65536, 65537, 70001})
if not NAMES:
    NAMES = ["VCALENDAR", "calendar"]
if not CHARS:
    CHARS = [":"]
if not STRINGS:
    STRINGS = NAMES


def word(r):
    """a name: a literal, or something that looks like one"""
    s = r.choice(NAMES)
    k = r.random()
    if k < 0.6:
        return s
    if k < 0.7:
        return s.lower()
    if k < 0.77:
        return s.upper()
    if k < 0.82:
        return s.capitalize()
    if k < 0.87:
        return s + r.choice(["S", "-", "1", "-X", "s"])
    if k < 0.92:
        return r.choice(["X-", "V", "A"]) + s
    if k < 0.96:
        return s[:-1] or "A"
    return s[1:] or "A"


def piece(r):
    """any text that occurs in the source"""
    return r.choice(CHARS) if r.random() < 0.4 else r.choice(STRINGS)


def size(r, top):
    c = [n for n in SIZES if n <= top]
    return r.choice(c)
