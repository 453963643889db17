"""Journals: structured items, their text, and their spread over a tree of files.

items (JSON):
  {"t":"txn","date","desc","payee"?,"status"?,"tags":[],"posts":[post...]}
      post: {"a": account as written, "k": R|V|B, "amt":[number, commodity]|None,
             "cost":["@"|"@@", number, commodity]?, "bal":[number, commodity]?, "tags":[]}
  {"t":"acct","name","alias":[],"payee":[]}   {"t":"payee","name","alias":[]}
  {"t":"comm","name","alias":[]}              {"t":"tag","name"}
  {"t":"price","date","c","n","o"}            {"t":"comment","text"}
  {"t":"auto","q":[[kind,word,joiner]...],"posts":[{"a","k","amt"|"mul"}...]}

file (JSON): {"path", "e":[item | {"inc": text of the include, "f":[file...]}]}
"""
import datetime
import re
from fractions import Fraction as F

ACCTS = ["Assets:Bank", "Assets:Bank:Main", "Assets:Cash", "Assets:Broker", "Assets", "Assets old:Box",
         "Expenses:Food", "Expenses:Food:Out", "Expenses:Rent", "Expenses:Fun", "Expenses", "Expenses-x:Fun",
         "Income:Job", "Income:Misc gains", "Liabilities:Card", "Equity:Start", "Deudas:Niño", "A:B:C:D", "A:B",
         "Assets:Bank Two", "Assets:Bank-x", "Expenses:Foodie", "Assets:Bankable",
         "Épargne:Livret", "Ñ", "assets:Till", "EXPENSES:Fees", "Unknown:Things", "Unknowns"]
KEYS = ["Ref", "Project", "who", "ref"]
VALS = ["A12", "B2", "home again", "41"]
NOTES = ["lunch with Bob", "paid late, q1", "xyz"]
VACCTS = ["Budget:Food", "Budget:Rent", "Goals:Trip", "Savings jar", "Budget", "Éxtra"]
DESCS = ["Grocer", "Rent March", "Salary ACME", "Coffee shop", "Flights to Rome", "Card payment", "ATM", "Café Olé",
         "Corner kiosk", "Landlord", "Bookshop", "grocer two", '"Gift" shop', "'N Sync' tour", "Joe's", '"The Mill"']
COMMS = ["EUR", "USD", "€", "$", "ACME", "GOOGL", "BTC", "points", "USDT", "Fund A", "ABC1"]
QUOTED = re.compile(r"[\s\d.;-]")   # commodities that have to be written in quotes
TAGS = ["trip", "home", "work", "refund", "Tax2021", "Home"]


def day(o):
    return datetime.date.fromordinal(o).isoformat()


def ordinal(s):
    return datetime.date.fromisoformat(s).toordinal()


D0 = ordinal("2021-01-01")


def fdec(x):
    """A fraction with a finite decimal expansion, as text."""
    x = F(x)
    d, k = x.denominator, 0
    while d % 10 == 0:
        d //= 10
        k += 1
    t, f = 0, 0
    while d % 2 == 0:
        d //= 2
        t += 1
    while d % 5 == 0:
        d //= 5
        f += 1
    if d != 1:
        raise ValueError("not a decimal")
    k += max(t, f)
    n = x.numerator * 10**k // x.denominator
    s = "-" if n < 0 else ""
    n = str(abs(n)).rjust(k + 1, "0")
    return s + (n[:-k] + "." + n[-k:] if k else n)


def number(rng, pos=False, places=None):
    p = places if places is not None else rng.choice([0, 2, 2, 2, 1, 3, 4])
    m = rng.choice([9, 99, 999, 9999])
    n = rng.randint(1, m * 10**p if rng.random() < 0.7 else 10**p)
    if rng.random() < 0.008:
        n = rng.randint(2**53, 10**rng.choice([17, 19, 22]))   # more than floats or machine words hold
    if not pos and rng.random() < 0.4:
        n = -n
    return F(n, 10**p)


def post(a, x=None, c=None, k="R", cost=None, bal=None, tags=()):
    p = {"a": a, "k": k, "amt": [fdec(x), c] if x is not None else None}
    if cost:
        p["cost"] = cost
    if bal:
        p["bal"] = bal
    if tags:
        p["tags"] = list(tags)
    return p


def count(rng, of):
    """How many transactions; now and then many, so that other algorithms get to work on them."""
    return rng.choice(of) if rng.random() < 0.97 else rng.choice([25, 40])


BASES = ["1969-12-20", "1999-12-20", "2000-02-25", "2020-02-20", "2024-02-25", "1900-02-25", "2038-01-10", "2099-12-20", "0999-12-25", "9990-02-20", "0020-01-01", "2019-12-28"]


class Opts:
    """Which features a journal uses (chosen anew for every run)."""

    def __init__(self, rng, **kw):
        self.n = rng.choice([1, 2, 3, 3, 4, 6, 8]) if rng.random() < 0.98 else rng.choice([25, 40])
        self.comms = rng.sample(COMMS, rng.choice([1, 2, 2, 3, 4]))
        self.accts = rng.sample(ACCTS, rng.choice([3, 4, 6, 9]))
        self.vaccts = rng.sample(VACCTS, 2)
        self.descs = rng.sample(DESCS, rng.choice([1, 3, 5]))
        self.days = rng.choice([1, 3, 20, 200, 800])
        self.base = D0 if rng.random() < 0.7 else ordinal(rng.choice(BASES))
        self.cost = rng.random() < 0.4
        self.implied = rng.random() < 0.25
        self.virtual = rng.random() < 0.4
        self.blank = rng.random() < 0.7
        self.tags = rng.random() < 0.4
        self.prices = rng.choice([0, 0, 1, 3, 6])
        self.directives = rng.random() < 0.5
        self.autos = rng.choice([0, 0, 0, 1, 2])
        self.comments = rng.random() < 0.3
        self.bigsum = rng.random() < 0.1
        self.__dict__.update(kw)
        if self.n > 20:
            self.bigsum = False


def txn(rng, o):
    """A transaction that balances."""
    it = {"t": "txn", "date": day(o.base + rng.randrange(o.days)), "desc": rng.choice(o.descs), "posts": []}
    s = rng.random()
    if s < 0.2:
        it["status"] = rng.choice(["*", "!"])
    if o.tags and rng.random() < 0.3:
        it["tags"] = rng.sample(TAGS, rng.choice([1, 2]))
    if o.tags and rng.random() < 0.25:
        it["vals"] = [[rng.choice(KEYS), rng.choice(VALS)]]
    if o.tags and rng.random() < 0.2:
        it["note"] = rng.choice(NOTES)
    posts = it["posts"]
    acct = lambda: rng.choice(o.accts)
    kind = rng.random()
    total = {}

    def add(c, x):
        total[c] = total.get(c, F(0)) + x

    if o.implied and kind < 0.25 and len(o.comms) > 1:
        c1, c2 = rng.sample(o.comms, 2)
        x, y = number(rng, True), number(rng, True)
        if rng.random() < 0.5:
            x, y = -x, -y
        posts += [post(acct(), x, c1), post(acct(), -y, c2)]
    else:
        for _ in range(rng.choice([1, 1, 2, 3, 5]) + (6 if o.bigsum else 0)):
            c = rng.choice(o.comms)
            x = number(rng)
            if o.cost and len(o.comms) > 1 and rng.random() < 0.4:
                c2 = rng.choice([z for z in o.comms if z != c])
                y = number(rng, True)
                if rng.random() < 0.5:
                    posts.append(post(acct(), x, c, cost=["@", fdec(y), c2]))
                    add(c2, x * y)
                else:
                    posts.append(post(acct(), x, c, cost=["@@", fdec(y), c2]))
                    add(c2, y if x > 0 else -y)
            else:
                posts.append(post(acct(), x, c))
                add(c, x)
        left = {c: x for c, x in total.items() if x}
        if o.blank and rng.random() < 0.6:
            posts.append(post(acct()))
        else:
            for c in sorted(left):
                posts.append(post(acct(), -left[c], c))
        rng.shuffle(posts)
    if rng.random() < 0.03:
        posts.insert(rng.randint(0, len(posts)), post(acct(), 0, rng.choice(o.comms)))
    if o.tags:
        for p in posts:
            if rng.random() < 0.2:
                p["tags"] = [rng.choice(TAGS)]
            elif rng.random() < 0.1:
                p["vals"] = [[rng.choice(KEYS), rng.choice(VALS)]]
            if (p.get("tags") or p.get("vals")) and rng.random() < 0.35:
                p["below"] = True    # on a line of its own after the posting
            if rng.random() < 0.08:
                p["note"] = rng.choice(NOTES)
    if o.virtual and rng.random() < 0.5:
        c, x = rng.choice(o.comms), number(rng)
        if rng.random() < 0.5:
            extra = [post(rng.choice(o.vaccts), x, c, "V")]
        else:
            extra = [post(rng.choice(o.vaccts + o.accts), x, c, "B"), post(rng.choice(o.vaccts), -x, c, "B")]
        if o.cost and len(o.comms) > 1 and rng.random() < 0.25:
            c2 = rng.choice([z for z in o.comms if z != c])
            y = fdec(number(rng, True))
            how = rng.choice(["@", "@@"])
            for e in extra:
                e["cost"] = [how, y, c2]
        for e in extra:
            posts.insert(rng.randint(0, len(posts)), e)
    return it


def price(rng, o):
    c, d = rng.sample(o.comms, 2)
    return {"t": "price", "date": day(o.base + rng.randrange(-30, o.days + 30)), "c": c,
            "n": fdec(number(rng, True)), "o": d}


def auto(rng, o):
    q = [["a", rng.choice(["expenses", "Bank", "food", "income:", "Assets", "Budget"]), None]]
    if rng.random() < 0.3:
        q = [["p", rng.choice(["grocer", "ACME", "rent", "Café"]), None]]
    elif rng.random() < 0.2:
        q.append(["p", rng.choice(["grocer", "Rent", "shop"]), rng.choice(["and", "or"])])
    posts = []
    if rng.random() < 0.6:
        x = rng.choice(["0.5", "1", "-1", "0.25", "2", "-0.1"])
        if rng.random() < 0.5:
            posts.append({"a": rng.choice(o.vaccts), "k": "V", "mul": x})
        else:
            k = rng.choice(["R", "B"])
            posts += [{"a": "Auto:One", "k": k, "mul": x},
                      {"a": "Auto:Two", "k": k, "mul": x[1:] if x[0] == "-" else "-" + x}]
    else:
        x, c = number(rng), rng.choice(o.comms)
        if rng.random() < 0.5:
            posts.append({"a": rng.choice(o.vaccts), "k": "V", "amt": [fdec(x), c]})
        else:
            k = rng.choice(["R", "B"])
            posts += [{"a": "Auto:One", "k": k, "amt": [fdec(x), c]}, {"a": "Auto:Two", "k": k, "amt": [fdec(-x), c]}]
    return {"t": "auto", "q": q, "posts": posts}


def directives(rng, o):
    r = []
    for a in rng.sample(o.accts, rng.randint(0, min(3, len(o.accts)))):
        r.append({"t": "acct", "name": a, "alias": [], "payee": []})
    for d in rng.sample(o.descs, rng.randint(0, min(2, len(o.descs)))):
        r.append({"t": "payee", "name": d, "alias": []})
    for c in rng.sample(o.comms, rng.randint(0, min(2, len(o.comms)))):
        r.append({"t": "comm", "name": c, "alias": []})
    if rng.random() < 0.3:
        r.append({"t": "tag", "name": rng.choice(TAGS)})
    return r


def comment(rng):
    return {"t": "comment", "text": rng.choice(["; note", "# heading", "% remark", "* star", "! bang",
                                                "; 2021-01-01 not a transaction", "; include nothing.ledger"])}


def journal(rng, **kw):
    o = Opts(rng, **kw)
    items = [txn(rng, o) for _ in range(o.n)]
    if len(o.comms) > 1:
        items += [price(rng, o) for _ in range(o.prices)]
    if o.directives:
        items += directives(rng, o)
    items += [auto(rng, o) for _ in range(o.autos)]
    if o.comments:
        items += [comment(rng) for _ in range(rng.randint(1, 3))]
    rng.shuffle(items)
    if rng.random() < 0.015:
        items.insert(rng.randint(0, len(items)), pad(rng))
    return o, items


def pad(rng):
    """Text that makes a file longer than a page, a buffer, a pipe."""
    return {"t": "comment", "text": "; long", "pad": rng.choice([4000, 5000, 9000, 17000, 34000, 66000, 140000])}


# -- text ------------------------------------------------------------------------
def wnumber(n, how):
    """The same number written otherwise."""
    if how == 1:
        return n + ("0" if "." in n else ".00")
    if how == 2:
        if n.startswith("0."):
            return n[1:]
        if n.startswith("-0."):
            return "-" + n[2:]
        return "-0" + n[1:] if n[0] == "-" else "00" + n
    return n


def wmoney(n, c, style=0):
    style, how = style % 3, style // 3
    n = wnumber(n, how)
    if QUOTED.search(c):
        how = 3
    if how == 3 and style != 1:
        return n + ' "%s"' % c
    if how == 3:
        return '"%s" %s' % (c, n)
    if style == 1 and c in ("$", "€", "EUR"):
        return c + n
    if style == 2 and c in ("$", "€"):
        return n + c
    return n + " " + c


def wpost(p, style=0):
    if "raw" in p:
        return p["raw"]
    a = {"R": "%s", "V": "(%s)", "B": "[%s]"}[p["k"]] % ([" %s", "%s ", " %s "][style % 3] if p["k"] != "R" and style % 7 == 3 else "%s") % p["a"]
    s = ["    ", "\t", "  ", " "][style % 4] + a
    sep = ["  ", "\t", "     ", "  \t "][(style // 4) % 4]
    ms = (style // 16) % 12
    body = []
    if p.get("mul"):
        m = p["mul"]
        body.append([m, "(amount * %s)" % m, "(%s * amount)" % m, "(amount * 6 * %s / 3 / 2)" % m,
                     "(amount * (1 - %s))" % fdec(1 - F(m)), "(amount * %s + amount * 2 - amount - amount)" % m][p.get("style", 0)])
    if p.get("amt") and p.get("style"):
        (n, c), how = p["amt"], p["style"] if F(p["amt"][0]) > 1 else 1
        c = "'%s'" % c if QUOTED.search(c) or p["style"] > 3 else c
        body.append({1: "(%s %s)" % (n, c), 2: "(2 * %s %s)" % (fdec(F(n) / 2), c), 3: "(%s %s + 1 %s)" % (fdec(F(n) - 1), c, c),
                     4: "(%s %s * 0.5)" % (fdec(F(n) * 2), c), 5: "(%s %s)" % (c, n)}[how])
    elif p.get("amt"):
        body.append(wmoney(p["amt"][0], p["amt"][1], ms))
    if p.get("cost"):
        body.append(p["cost"][0] + ("" if style % 11 == 5 else "  " if style % 11 == 6 else " ") + wmoney(p["cost"][1], p["cost"][2], ms))
    if p.get("bal"):
        body.append("=" + ("" if style % 11 in (5, 7) else "\t" if style % 11 == 8 else " ") + wmoney(p["bal"][0], p["bal"][1], ms))
    if body:
        s += sep + ("   " if style % 11 == 9 else " ").join(body)
    words = ":%s:" % ":".join(p["tags"]) if p.get("tags") else "%s: %s" % tuple(p["vals"][0]) if p.get("vals") else None
    if words and not p.get("below"):
        s += "  ; " + words
    elif p.get("note") and body and style % 2:
        return s + "  ; " + p["note"] + ("\n    ; " + words if words else "")
    if p.get("note"):
        s += "\n\t; " + p["note"]
    if words and p.get("below"):
        s += "\n" + ["    ", "\t", "  ", " "][style % 4] + "; " + words
    return s


def typo(rng, line):
    """One slip of the fingers in a line, behind its indentation."""
    k = len(line) - len(line.lstrip())
    i = rng.randint(k, len(line) - 1)
    if rng.random() < 0.5:
        # where the meaning is
        at = [j for j in range(k, len(line)) if line[j] in ' .-@="()[];' or line[j].isdigit()]
        i = rng.choice(at) if at else i
    how = rng.randrange(5)
    c = rng.choice(list("0159.,-- @=;()[]\"'$%xE€+*/|:~&#\t") + ["  ", "@@", " ;"])
    if how == 0:
        return line[:i] + c + line[i:]
    if how == 1:
        return line[:i] + c + line[i + 1:]
    if how == 2:
        return line[:i] + line[i + 1:]
    if how == 3:
        return line[:i] + line[i] + line[i:]
    return line[:i] + line[i + 1:i + 2] + line[i] + line[i + 2:]


def witem(it):
    t = it["t"]
    style = it.get("style", 0)
    if t == "txn":
        d = it["date"]
        if style % 5 == 1:
            d = d.replace("-", "/")
        elif style % 5 == 2:
            y, m, dd = d.split("-")
            d = "%s-%d-%d" % (y, int(m), int(dd))
        elif style % 5 == 3:
            d = d.replace("-", ".")
        if it.get("time"):
            d += " " + it["time"]
        if it.get("eff"):
            d += "=" + it["eff"]
        h = d + " " + (it["status"] + " " if it.get("status") else "") + ('("%s") ' % it["code"] if it.get("code") else "") + it["desc"]
        if it.get("payee"):
            h += " | " + it["payee"]
        if it.get("htags"):
            h += "  ; :%s:" % ":".join(it["htags"])
        for v in it.get("hvals", ()):
            h += ["  ; ", " ;", "  ;  "][style % 3] + "%s: %s" % tuple(v)
        out = [h]
        if it.get("tags"):
            out.append("    ; :%s:" % ":".join(it["tags"]))
        for v in it.get("vals", ()):
            out.append("    ; %s: %s" % tuple(v))
        if it.get("note"):
            out.append("    ; " + it["note"])
        # comments are also written without a blank
        glue = (lambda l: l.replace("; ", ";", 1)) if style % 13 in (4, 9) else str
        return [it.get("raw") or glue(out[0])] + [glue(l) for l in out[1:]] + [l if "raw" in p else glue(l) for p in it["posts"] for l in wpost(p, style).split("\n")]
    if t == "acct":
        return (["account " + it["name"]] + it.get("extra", []) + ["    alias " + a for a in it.get("alias", ())]
                + ["    payee " + r for r in it.get("payee", ())])
    if t == "payee":
        return ["payee " + it["name"] + ["", "", "", "  ; a remark", "   ;x", "  ; one  ; two"][it.get("style", 0) % 6]] + it.get("extra", []) + ["    alias " + a for a in it.get("alias", ())]
    if t == "comm":
        return ["commodity " + ('"%s"' if QUOTED.search(it["name"]) or style % 3 == 1 else "%s") % it["name"]] + it.get("extra", []) + ["    alias " + a for a in it.get("alias", ())]
    if t == "tag":
        return ["tag " + it["name"]] + it.get("extra", [])
    if t == "price":
        d, n, q = it["date"], it["n"], '"%s"' if style % 3 == 1 else "%s"
        if style % 4 == 1:
            d = d.replace("-", "/")
        elif style % 4 == 2:
            d += " " + ["09:30:00", "23:05:59", "20:20:20", "17:00:00"][style // 12 % 4]
        qt = lambda c: ('"%s"' if QUOTED.search(c) else q) % c
        return ["P %s %s %s %s" % (d, qt(it["c"]), wnumber(n, style % 2), qt(it["o"])) + ("  ; quote" if style % 7 == 1 else "")]
    if t == "comment":
        return [it["text"] + " lorem é ipsum" * (it["pad"] // 15) if it.get("pad") else it["text"]]
    if t == "auto":
        return ["= " + wquery(it["q"])] + (["    ; :%s:" % ":".join(it["tags"])] if it.get("tags") else []) + [l for p in it["posts"] for l in wpost(p, style).split("\n")]
    if t == "raw":
        return it["text"].split("\n")
    raise ValueError(t)


def wquery(q):
    r = []
    for i, (kind, w, j) in enumerate(q):
        if i and j:
            r.append(j)
        if kind == "e":
            r.append('expr "%s"' % wexpr(w))
        elif kind == "/":
            r.append("/%s/" % w)
        else:
            r.append({"a": "", "p": "@", "t": "%"}[kind] + w)
    return " ".join(r)


def wexpr(e, sp=0):
    """A value expression that gives true or false. sp: how operators are written"""
    k = e[0]
    gap = ["", "", "  ", "", " "][sp] if sp else " "
    op = lambda a, o, b: a + gap + o + gap + b
    if k == "sp":
        return wexpr(e[2], e[1])
    if k in ("amount", "abs"):
        return op("amount" if k == "amount" else "abs(amount)", e[1], e[2])
    if k == "arith":
        return op(wnum(e[1], gap), e[2], wnum(e[3], gap))
    if k == "date":
        d = e[2]
        if len(e) > 3 and d[-2:] == "01" and e[3] > 2:
            d = d[:-3]
        if len(e) > 3 and e[3] % 2:
            d = d.replace("-", "/")
        return op("date", e[1], "to_date('%s')" % d)
    if k in ("account", "payee", "note"):
        return op(k, "=~", "/%s/" % e[1])
    if k == "has_tag":
        return "has_tag(/%s/)" % e[1]
    if k == "tag":
        return op("tag('%s')" % e[1], "=~", "/%s/" % e[2])
    if k == "tageq":
        return op("tag('%s')" % e[1], "==", "'%s'" % e[2])
    if k == "tagre":
        return op("tag(/%s/)" % e[1], "=~", "/%s/" % e[2])
    if k == "money":
        c = e[3]
        if QUOTED.search(c) or e[4] % 3 == 1:
            c = "'%s'" % c
        return op("amount", e[1], "%s %s" % (e[2], c) if e[4] % 2 else "%s %s" % (c, e[2]))
    if k == "any":
        return "any(%s)" % wexpr(e[1], sp)
    if k == "not":
        return "not" + gap + "(%s)" % wexpr(e[1], sp)
    return op("(%s)" % wexpr(e[1], sp), {"and": "&", "or": "|"}[k] if sp > 2 else k, "(%s)" % wexpr(e[2], sp))


def wnum(e, gap=" "):
    """An arithmetic expression; a nested one in parentheses unless the precedence makes them needless."""
    if isinstance(e, str):
        return e
    if e[0] == "abs":
        return "abs(%s)" % wnum(e[1], gap)
    if e[0] == "neg":
        return "(-%s)" % (wnum(e[1], gap) if isinstance(e[1], str) else "(" + wnum(e[1], gap) + ")")
    prec = {"+": 1, "-": 1, "*": 2, "/": 2}
    a, b = wnum(e[1], gap), wnum(e[2], gap)
    if not isinstance(e[1], str) and e[1][0] in prec and prec[e[1][0]] < prec[e[0]]:
        a = "(" + a + ")"
    if not isinstance(e[2], str) and e[2][0] in prec and prec[e[2][0]] <= prec[e[0]]:
        b = "(" + b + ")"
    return a + gap + e[0] + gap + b


def num(rng, depth):
    """An expression of numbers, never zero."""
    if depth and rng.random() < 0.6:
        k = rng.choice("+-*/")
        if k == "-":
            return ["-", rng.choice(["10", "7.5", "100"]), num(rng, 0)]
        return [k, num(rng, depth - 1), num(rng, depth - 1)]
    return rng.choice(["1", "2", "3", "0.5", "4", "0.25"])


def mon(rng, depth):
    """An expression with the amount of the posting."""
    r = rng.random()
    if not depth or r < 0.3:
        return "amount"
    if r < 0.4:
        return ["abs", mon(rng, depth - 1)]
    if r < 0.5:
        return ["neg", mon(rng, depth - 1)]
    if r < 0.65:
        return [rng.choice("+-"), mon(rng, depth - 1), mon(rng, depth - 1)]
    if r < 0.75:
        return ["*", num(rng, 1), mon(rng, depth - 1)]
    return [rng.choice("*/"), mon(rng, depth - 1), num(rng, 1)]


def expr(rng, o, depth=2):
    if depth == 2 and rng.random() < 0.3:
        return ["sp", rng.randint(1, 4), expr(rng, o, 1)]
    r = rng.random()
    if depth and r < 0.35:
        return [rng.choice(["and", "or"]), expr(rng, o, depth - 1), expr(rng, o, depth - 1)]
    if depth and r < 0.45:
        return ["not", expr(rng, o, depth - 1)]
    if depth and r < 0.55:
        return ["any", expr(rng, o, 0)]
    k = rng.choice(["amount", "amount", "abs", "arith", "date", "account", "payee", "note", "has_tag", "tag", "tag"])
    if k == "amount" and rng.random() < 0.3:
        # amounts of different commodities can only be compared for equality
        return ["money", rng.choice([">", "<", ">=", "<=", "=="]) if getattr(o, "onemoney", 0) else "==", rng.choice(["0", "10", "0.5", "2", "100.25", "1"]),
                rng.choice(o.comms), rng.randrange(6)]
    if k in ("amount", "abs"):
        return [k, rng.choice([">", "<", ">=", "<="]), rng.choice(["0", "10", "100", "0.5", "2", "1000"])]
    if k == "arith":
        a, b = mon(rng, rng.choice([1, 2, 3])), num(rng, rng.choice([0, 1, 2]))
        return [k, b, rng.choice([">", "<", ">=", "<=", "=="]), a] if rng.random() < 0.2 else [k, a, rng.choice([">", "<", ">=", "<=", "=="]), b]
    if k == "date":
        d = day(o.base + rng.randrange(o.days + 1))
        return [k, rng.choice([">", "<", ">=", "<=", "=="]), d if rng.random() < 0.7 else d[:8] + "01", rng.randrange(4)]
    if k == "account":
        return [k, rng.choice(["Exp", "Bank", "Food", "Assets:", "^A", "Main$", "Budget", "(?i)INCOME"])]
    if k == "payee":
        return [k, rng.choice(["Gro", "ACME", "shop", "^R", "o$"])]
    if k == "note":
        return [k, rng.choice(["lunch", "Bob", "q1", "x"])]
    if k == "has_tag":
        return [k, rng.choice(["trip", "home", "ref", "Proj", "^o", "o"])]
    if rng.random() < 0.3:
        return ["tageq", rng.choice(KEYS), rng.choice(VALS)]
    if rng.random() < 0.3:
        return ["tagre", rng.choice(["^R", "(?i)ref", "who|Ref", "o", "trip|who", "ho"]), rng.choice(["A", "1", "home", "^B", "2$", "^[A-Z]"])]
    return [k, rng.choice(KEYS), rng.choice(["A", "1", "home", "^B", "2$"])]


def text_of(items, gap=1):
    out = []
    for it in items:
        out += witem(it)
        out += [""] * gap
    return "\n".join(out) + "\n" if out else ""


def style_up(rng, items, payees=True, lines=True):
    for it in items:
        if rng.random() < 0.5:
            it["style"] = rng.randrange(960)
        if rng.random() < 0.7:
            continue
        if it["t"] == "txn":
            r = rng.randrange(6)
            if r == 0:
                it["eff"] = day(ordinal(it["date"]) + rng.choice([1, -1, 5, 40, -400]))
            elif r == 1:
                it["time"] = rng.choice(["10:20:30", "00:00:00", "19:59:59", "20:00:00", "23:59:59", "21:34:56.789"])
            elif r == 2:
                it["code"] = rng.choice(["42", "X-1", "a b"])
            elif r == 3 and rng.random() < 0.5:
                it["htags"] = rng.sample(TAGS, rng.choice([1, 2]))
            elif r == 3:
                it["hvals"] = [[rng.choice(KEYS), rng.choice(VALS)]]
            elif r == 4 and payees:
                it["payee"] = rng.choice(DESCS)
        elif it["t"] in EXTRA and lines:
            it["extra"] = rng.sample(EXTRA[it["t"]], rng.choice([1, 2]) if it["t"] != "payee" else 1)
    return items


EXTRA = {"acct": ["    note everyday money", "    isin 123", "    ; a remark", "    default", "    check commodity == \"$\"", "    assert true"],
         "comm": ["    note a coin", "    format 1,000.00 EUR", "    ; a remark", "    default"],
         "payee": ["    ; a remark", "    ; alias nobody"], "tag": ["    check value =~ /x/", "    assert true", "    ; a remark"]}


# -- file trees --------------------------------------------------------------------
def render(f, files=None, gap=1, final_newline=True):
    """{path: text} of a file tree."""
    files = {} if files is None else files
    out = []
    for e in f["e"]:
        if "inc" in e:
            out.append("include " + e["inc"])
            for g in e["f"]:
                render(g, files, gap, final_newline)
        else:
            out += witem(e)
            out += [""] * gap
    files[f["path"]] = "\n".join(out) + ("\n" if out and final_newline else "")
    return files


def flatten(f):
    """The items in the order of the inlined text."""
    r = []
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                r += flatten(g)
        else:
            r.append(e)
    return r


DIRS = ["", "sub/", "sub/deep/", "año 2021/", "x.d/", "sub[1]/"]
STEMS = ["a", "b", "c", "m", "prices", "z9", "01", "02", "10", "9", "Food"]


def spread(rng, items, path="/w/main.ledger", depth=0, maxdepth=3, counter=None, wild=True, inwild=False, multi=False):
    """Put items, in order, in a tree of files."""
    counter = counter if counter is not None else [0]
    f = {"path": path, "e": []}
    base = path.rsplit("/", 1)[0] + "/"
    i = 0
    n = len(items)
    while i < n:
        k = rng.randint(1, max(1, n - i))
        chunk = items[i:i + k]
        i += k
        r = rng.random()
        if depth < maxdepth and r < 0.3:
            d = rng.choice(DIRS[1:] if inwild else DIRS)   # a file beside wildcard matches would match too
            counter[0] += 1
            name = "%s%s%d.ledger" % (d, rng.choice(STEMS), counter[0])
            pre = rng.choice(["", "", "./", "../" + base.rstrip("/").split("/")[-1] + "/"])
            inc = (pre + name).replace("[", "[[]")
            g = spread(rng, chunk, base + name, depth + 1, maxdepth, counter, wild, multi=multi)
            f["e"].append({"inc": inc, "f": [g]})
        elif depth < maxdepth and r < 0.5 and wild:
            counter[0] += 1
            d = "w%d" % counter[0]
            parts = rng.randint(1, 4)
            cuts = sorted(rng.randint(0, len(chunk)) for _ in range(parts - 1))
            pieces = [chunk[a:b] for a, b in zip([0] + cuts, cuts + [len(chunk)])]
            names = sorted(rng.sample(["%s%s.ledger" % (s, t) for s in STEMS for t in ("", "x", "7")], parts),
                           key=lambda s: s.encode())
            gs = [spread(rng, p, base + d + "/" + nm, depth + 1, maxdepth, counter, wild, True, multi)
                  for p, nm in zip(pieces, names)]
            f["e"].append({"inc": d + "/" + rng.choice(["*.ledger", "*.ledger", "*.led*", "*"])
                           if not any(nested_in(base + d + "/", g) for g in gs) else d + "/*.ledger", "f": gs})
        elif depth < maxdepth and r < 0.58 and wild and multi:
            # a wildcard over directories too; path-name order goes directory by directory
            counter[0] += 1
            d = "m%d" % counter[0]
            dirs, pat = rng.choice([(["a", "b", "c"], "*/"), (["a1", "b1"], "?1/"), (["x", "y"], "[xy]/"),
                                    (["q/r", "q/s", "t/r"], "*/*/"), (["2020", "2021", "20210"], "20*/")])
            stems, pat2 = rng.choice([(["1", "2", "10"], "*.ledger"), (["k", "l"], "?.ledger"), (["in"], "in.ledger"),
                                      (["a", "b", "é"], "[abé].ledger"), (["jan", "jul", "jun"], "j*.led*r")])
            full = sorted(["%s/%s/%s.ledger" % (d, x, y) for x in dirs for y in stems if rng.random() < 0.7],
                          key=lambda s: [x.encode() for x in s.split("/")])
            if not full:
                full = ["%s/%s/%s.ledger" % (d, dirs[0], stems[0])]
            cuts = sorted(rng.randint(0, len(chunk)) for _ in range(len(full) - 1))
            pieces = [chunk[a:b] for a, b in zip([0] + cuts, cuts + [len(chunk)])]
            f["e"].append({"inc": d + "/" + pat + pat2, "f": [{"path": base + nm, "e": p} for p, nm in zip(pieces, full)]})
        else:
            f["e"] += chunk
    return f


def nested_in(prefix, f):
    """Does a file below f lie in a subdirectory of prefix (so that * would match the directory)?"""
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                if g["path"].startswith(prefix) or nested_in(prefix, g):
                    return True
    return False


def paths(f):
    r = [f["path"]]
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                r += paths(g)
    return r


# -- names, aliases, spellings --------------------------------------------------------
def recase(rng, s):
    f = rng.choice([str.lower, str.upper, str.title, lambda x: x])
    return f(s)


def enrich(rng, o, items, ambiguous=False):
    """Declare names with aliases and payee patterns and use other spellings of them.
    ambiguous: also names whose canonical spelling is only fixed by a rule of its own
    (undeclared spellings, patterns that overlap)."""
    accts = sorted({p["a"] for it in items if it["t"] == "txn" for p in it["posts"]})
    decl = {}
    for n, a in enumerate(accts):
        if rng.random() < 0.5:
            decl[a] = {"t": "acct", "name": a, "alias": [rng.choice(["alias%d", "Alias%d", "ALIAS %d", "a-%d"]) % n] if rng.random() < 0.6 else [], "payee": []}
            if rng.random() < 0.15:
                decl[a]["alias"].append("other %d" % n)
    words = ["Grocer", "Coffee", "Rent", "ACME", "Café", "shop", "o"]
    targets = rng.sample(sorted(decl), min(len(decl), rng.choice([0, 1, 2, 3])))
    used = set()
    for a in targets:
        w = rng.choice(words if ambiguous else words[:5])
        if w in used and not ambiguous:
            continue
        used.add(w)
        decl[a]["payee"].append(w if ambiguous or rng.random() < 0.5 else "^" + w)
    pays = {}
    for d in sorted({it["desc"] for it in items if it["t"] == "txn"}):
        if rng.random() < 0.3:
            pays[d] = {"t": "payee", "name": d, "alias": []}
    if rng.random() < 0.4:
        pays["The Shop"] = {"t": "payee", "name": "The Shop", "alias": [rng.choice(["shop$", "Corner.*", "^Book"])]}
        if ambiguous:
            pays["A Shop"] = {"t": "payee", "name": "A Shop", "alias": [rng.choice(["shop", "Co", "B.*k"]), "zz"]}
    comms = {}
    for n, c in enumerate(o.comms):
        if rng.random() < 0.3:
            comms[c] = {"t": "comm", "name": c, "alias": [rng.choice(["cm%s", "Cm%s"]) % "abcdefgh"[n]] if rng.random() < 0.6 else []}
    for it in items:
        if it["t"] != "txn":
            continue
        if it["desc"] in pays and rng.random() < 0.3:
            it["desc"] = recase(rng, it["desc"])
        for p in it["posts"]:
            a = p["a"]
            r = rng.random()
            if a in decl and decl[a]["alias"] and r < 0.3:
                p["a"] = rng.choice(decl[a]["alias"])
                if rng.random() < 0.3:
                    p["a"] = recase(rng, p["a"])
            elif a in decl and r < 0.45:
                p["a"] = recase(rng, a)
            elif r > 0.9:
                p["a"] = rng.choice(["Expenses:Unknown", "unknown", "Income:UNKNOWN"])
            elif ambiguous and r > 0.75:
                p["a"] = recase(rng, a)
            if p.get("amt") and p["amt"][1] in comms and comms[p["amt"][1]]["alias"] and rng.random() < 0.3:
                p["amt"] = [p["amt"][0], comms[p["amt"][1]]["alias"][0]]
            elif ambiguous and p.get("amt") and rng.random() < 0.1:
                p["amt"] = [p["amt"][0], recase(rng, p["amt"][1])]
            for k in ("cost", "bal"):
                if p.get(k) and p[k][-1] in comms and comms[p[k][-1]]["alias"] and rng.random() < 0.3:
                    p[k] = p[k][:-1] + [comms[p[k][-1]]["alias"][0]]
    extra = list(decl.values()) + list(pays.values()) + list(comms.values())
    if extra and rng.random() < (0.4 if ambiguous else 0.1):
        # declared twice: the first one counts
        d = dict(rng.choice(extra))
        if not ambiguous:
            d["payee"] = []
        d["name"] = recase(rng, d["name"])
        d["alias"] = ["dupa" if d["t"] == "comm" else "dup alias"] if rng.random() < 0.5 else []
        extra.append(d)
        real = [p for it in items if it["t"] == "txn" for p in it["posts"]]
        if d["t"] == "acct" and d["alias"] and real and rng.random() < 0.7:
            rng.choice(real)["a"] = "dup alias"
    items = [it for it in items if it["t"] not in ("acct", "payee", "comm")] + extra
    rng.shuffle(items)
    return items
