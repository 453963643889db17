"""Reading the reports back."""
import re

ANSI = re.compile(r"\x1b\[[0-9;]*m")
MONEY = r"(?:-?\d+\.\d+ \S+(?: \S+)*?|-?\d+\.\d+|0)"
RE_BAL = re.compile(r"^ *(%s)(?:( {2,})(\S.*))?$" % MONEY)


class Bad(Exception):
    pass


def text(b):
    return b.decode("utf-8") if isinstance(b, bytes) else b


def balance(b):
    """([(spaces, name, [money...])...], [total money...] or None)"""
    rows, cur, total, intotal = [], [], None, False
    for l in text(b).split("\n")[:-1]:
        if not intotal and l == "-" * 20:
            if cur:
                raise Bad("amounts without an account: %r" % cur)
            intotal, total = True, []
            continue
        m = RE_BAL.match(l)
        if not m:
            raise Bad("unexpected line %r" % l)
        if intotal:
            if m.group(3):
                raise Bad("unexpected line after the total %r" % l)
            total.append(m.group(1))
        else:
            cur.append(m.group(1))
            if m.group(3):
                rows.append((len(m.group(2)), m.group(3), cur))
                cur = []
    if cur:
        raise Bad("amounts without an account: %r" % cur)
    return rows, total


AMT = r"(?:-?\d+\.\d\d (?:(?i:Fund A|ABC1)|[^\s\d.-]+)|0)"
RE_REG = re.compile(r"^(.*\S)\s+(%s)\s*?(%s)$" % (AMT, AMT))   # wide amounts may touch each other
RE_MORE = re.compile(r"^\s+(%s)$" % AMT)


def register(b):
    """[(date, payee, [(account, amount, [running...])...])...]"""
    out = []
    for l in text(b).split("\n")[:-1]:
        m = RE_REG.match(l)
        if m:
            f = [x for x in re.split(r" {2,}", m.group(1).strip(" ")) if x]
            if re.match(r"^-?\d+-\d\d-\d\d ", l):
                if len(f) != 2:
                    raise Bad("unexpected line %r" % l)
                date, _, desc = f[0].partition(" ")
                out.append((date, desc, [(f[1], m.group(2), [m.group(3)])]))
                continue
            if len(f) == 1 and out and l[0] == " ":
                out[-1][2].append((f[0], m.group(2), [m.group(3)]))
                continue
        m = RE_MORE.match(l)
        if not m or not out:
            raise Bad("unexpected line %r" % l)
        out[-1][2][-1][2].append(m.group(1))
    return out
