"""What a line that was cut off says: the reference reading of half a line, independent of dinero's parser."""
import calendar
import re
import gen

NOTHING, INVALID, UNKNOWN = "nothing", "invalid", "unknown"
RE_HEAD = re.compile(r"([0-9]+)([-/.])(1[0-2]|0?[1-9])([-/.])(3[01]|[12][0-9]|0?[1-9])")
RE_TIME = re.compile(r"([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?")


def date(s):
    """(date, rest), INVALID or UNKNOWN."""
    m = RE_HEAD.match(s)
    if not m or s[m.end():m.end() + 1].isdigit() or m.group(2) != m.group(4):
        return INVALID
    y, mo, d = int(m.group(1)), int(m.group(3)), int(m.group(5))
    if not 1 <= y <= 9999:
        return UNKNOWN
    if d > calendar.monthrange(y, mo)[1]:
        return INVALID
    return "%04d-%02d-%02d" % (y, mo, d), s[m.end():]


def header(s):
    """(date, description), INVALID or UNKNOWN."""
    if not s[:1].isdigit():
        return UNKNOWN
    r = date(s)
    if isinstance(r, str):
        return r
    day, s = r
    if s[:1] == "=" or RE_TIME.match(s[1:]) or re.match(r" [0-9]+:", s):
        return UNKNOWN
    if s[:1] != " ":
        return INVALID
    s = s.lstrip(" ")
    if s[:1] in ("*", "!"):
        s = s[1:].lstrip(" ")
    s = re.sub(r'^\("[^"]*"\)', "", s)
    if s.count("|") > 1 or re.search(r"\|\s*[\"']", s):
        return UNKNOWN
    s = re.split(r"[|;]", s)[0].strip()
    return (day, s) if s and s[0] not in "\"'(" else UNKNOWN


class Bad(Exception):
    pass


def number(s):
    m = re.match(r"[-0-9.]*", s)
    n = m.group(0)
    if not re.fullmatch(r"-?([0-9]+\.?[0-9]*|\.[0-9]+)", n):
        raise Bad()
    whole, _, frac = n.lstrip("-").partition(".")
    return ("-" if n[0] == "-" else "") + (whole.lstrip("0") or "0") + ("." + frac if frac else ""), s[m.end():]


def commodity(s):
    if s[:1] == '"':
        k = s.find('"', 1)
        if k < 2:
            raise Bad()
        return s[1:k], s[k + 1:]
    m = re.match(r'[^\s0-9.;"-]*', s)
    if s[m.end():m.end() + 1] == '"':
        raise Bad()
    return m.group(0), s[m.end():]


def money(s):
    s = s.lstrip()
    if re.match(r"[-0-9.]", s):
        n, s = number(s)
        c, s = commodity(s.lstrip())
        return n, c, s
    c, s = commodity(s)
    n, s = number(s.lstrip())
    return n, c, s


def posting(line):
    """A posting as an item of the generator."""
    line = line.strip()
    if not line or line[0] == ";":
        return NOTHING
    if line[0].isnumeric():
        return INVALID
    m = re.match(r"(.*?)(?:\t| \s|\s*$)(.*)$", line)
    a, rest = m.group(1), m.group(2)
    kind = "R"
    if a[0] in "([":
        if a[-1] != {"(": ")", "[": "]"}[a[0]] or len(a) == 1:
            return INVALID
        kind = "V" if a[0] == "(" else "B"
        a = a[1:-1].strip()
        if not a:
            return UNKNOWN
    p = gen.post(a, k=kind)
    try:
        while True:
            rest = rest.lstrip()
            if not rest or rest[0] == ";":
                return p
            if rest[0] == "@":
                if not p["amt"] or p.get("cost"):
                    return INVALID
                how = "@@" if rest[:2] == "@@" else "@"
                n, c, rest = money(rest[len(how):])
                p["cost"] = [how, n, c]
            elif rest[0] == "=":
                if p.get("bal"):
                    return INVALID
                n, c, rest = money(rest[1:])
                p["bal"] = [n, c]
            else:
                if p["amt"] or rest[0] == "(":
                    return INVALID
                n, c, rest = money(rest)
                p["amt"] = [n, c]
    except Bad:
        return INVALID


def read(line, whole):
    """What the first part of a line means, given the whole line: an item, a posting, NOTHING, INVALID or UNKNOWN."""
    if not line.strip() or line.lstrip()[0] == ";":
        return NOTHING
    if line[0] in " \t":
        return posting(line)
    if line[0] in "*#%!":
        return NOTHING
    if line[0].isdigit():
        # a transaction without postings shows nothing
        r = header(line + "x" if " " in line else line)
        return NOTHING if isinstance(r, tuple) else r
    if line[0] == "=":
        return UNKNOWN
    word, _, rest = whole.partition(" ")
    if len(line) <= len(word):
        # the word is not complete, or nothing follows
        return INVALID
    rest = line[len(word):].strip()
    if not rest:
        return UNKNOWN
    if word == "account":
        return {"t": "acct", "name": rest, "alias": [], "payee": []}
    if word == "payee" and ";" not in rest:
        return {"t": "payee", "name": rest, "alias": []}
    return UNKNOWN
