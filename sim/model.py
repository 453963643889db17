"""Reference model: what the journal means, in exact fractions.

Works on the structured items the generator makes (see gen.py), never on text, and
shares nothing with the code under test.
"""
import datetime
import heapq
import re
from fractions import Fraction as F


class Refused(Exception):
    """The books are not valid; a run has to end with a non-zero status."""


def dec(s):
    return F(s)


def fmt_amount(x):
    """Exact value rounded to two decimals, halves away from zero."""
    n = x.numerator * 200 + (x.denominator if x >= 0 else -x.denominator)
    d = 2 * x.denominator
    c = n // d if x >= 0 else -((-n) // d)
    s = "-" if c < 0 else ""
    c = abs(c)
    return "%s%d.%02d" % (s, c // 100, c % 100)


def money(x, c):
    return "%s %s" % (fmt_amount(x), c)


class Bal(dict):
    """commodity -> non-zero Fraction"""

    def add(self, c, x):
        v = self.get(c, 0) + x
        if v:
            self[c] = v
        else:
            self.pop(c, None)
        return self

    def plus(self, other):
        r = Bal(self)
        for c, x in other.items():
            r.add(c, x)
        return r

    def can_be_zero(self):
        if not self:
            return True
        return any(x > 0 for x in self.values()) and any(x < 0 for x in self.values())

    def lines(self):
        return [money(self[c], c) for c in sorted(self)]


class Names:
    """Names with aliases, case-blind; the first declaration counts."""

    def __init__(self):
        self.names = {}    # lower -> canonical
        self.aliases = {}  # lower -> lower canonical
        self.decl = {}     # canonical -> item

    def declare(self, it):
        k = it["name"].lower()
        if k in self.names:
            return
        self.names[k] = it["name"]
        self.decl[it["name"]] = it
        for a in it.get("alias", ()):
            self.aliases[a.lower()] = k

    def find(self, s):
        k = s.lower()
        if k in self.names:
            return self.names[k]
        if k in self.aliases:
            return self.names[self.aliases[k]]
        return None

    def use(self, s):
        if self.find(s) is None:
            self.names[s.lower()] = s

    def listing(self):
        return sorted(self.names.values(), key=lambda s: s.encode())


class P:
    """A posting of the ledger."""
    __slots__ = ("acct", "kind", "amt", "comm", "cost", "bal", "payee", "auto", "vals")

    def __init__(s, acct, kind, amt, comm, cost=None, bal=None, payee=None, auto=False, vals=()):
        s.acct, s.kind, s.amt, s.comm = acct, kind, amt, comm
        s.cost, s.bal, s.payee, s.auto = cost, bal, payee, auto
        s.vals = [list(v) for v in vals]

    def shown(s):
        return {"R": "%s", "V": "(%s)", "B": "[%s]"}[s.kind] % s.acct

    def money(s):
        return money(s.amt, s.comm) if s.comm is not None else "0"


class T:
    __slots__ = ("date", "desc", "payee", "posts", "idx", "vals", "notes")


def value(p):
    """What a posting with an amount counts for in its transaction."""
    if p.cost is None:
        return (p.comm, p.amt)
    how, x, c = p.cost
    if how == "@@":
        return (c, -x if p.amt < 0 else x)
    return (c, x * p.amt)


class Ledger:
    def __init__(self, items, nocheck=False):
        self.nocheck = nocheck
        self.accounts, self.payees, self.comms = Names(), Names(), Names()
        for it in items:
            if it["t"] == "acct":
                self.accounts.declare(it)
            elif it["t"] == "payee":
                self.payees.declare(it)
            elif it["t"] == "comm":
                self.comms.declare(it)
        aset, pset, cset = set(), set(), set()
        for it in items:
            if it["t"] == "txn" and it["posts"]:
                pset.add(self._payee_text(it))
            if it["t"] in ("txn", "auto"):
                for p in it["posts"]:
                    aset.add(p["a"])
                    for k in ("amt", "bal"):
                        if p.get(k):
                            cset.add(p[k][1])
                    if p.get("cost"):
                        cset.add(p["cost"][2])
            elif it["t"] == "price":
                cset.add(it["c"])
                cset.add(it["o"])
        for s in sorted(cset, key=lambda s: s.encode()):
            self.comms.use(s)
        for s in sorted(aset, key=lambda s: s.encode()):
            self.accounts.use(s)
        declared = sorted(self.payees.decl.values(), key=lambda d: d["name"].encode())
        for s in sorted(pset, key=lambda s: s.encode()):
            if self.payees.find(s) is None:
                for d in declared:
                    if any(re.search(a, s) for a in d.get("alias", ())):
                        self.payees.aliases[s.lower()] = d["name"].lower()
                        break
                else:
                    self.payees.use(s)
        self.prices = []
        for it in items:
            if it["t"] == "price":
                self.prices.append((it["date"], self.comms.find(it["c"]), dec(it["n"]), self.comms.find(it["o"])))
        self.txns = []
        self.autos = [it for it in items if it["t"] == "auto"]
        for n, it in enumerate(items):
            if it["t"] == "txn":
                self.txns.append(self._txn(it, n))
        self.txns.sort(key=lambda t: t.date)
        self._balance()
        if self.autos:
            self._automate()
            self._balance(again=True)

    @staticmethod
    def _payee_text(it):
        return it.get("payee") or it["desc"] or "[Unspecified payee]"

    def _txn(self, it, n):
        t = T()
        t.date, t.desc, t.idx = it["date"], it["desc"], n
        t.payee = self.payees.find(self._payee_text(it)) if it["posts"] else None
        # tags in the order they are written; those without a value have None
        t.vals = ([[x, None] for x in it.get("htags", ())] + [list(v) for v in it.get("hvals", ())]
                  + [[x, None] for x in it.get("tags", ())] + [list(v) for v in it.get("vals", ())])
        t.notes = [it["note"]] if it.get("note") else []
        for k in ("htags", "tags"):
            if it.get(k):
                t.notes.append(":%s:" % ":".join(it[k]))
        t.notes += ["%s: %s" % tuple(v) for k in ("hvals", "vals") for v in it.get(k, ())]
        t.posts = []
        for p in it["posts"]:
            acct = None
            if p["a"].lower().endswith("unknown"):
                for d in sorted(self.accounts.decl.values(), key=lambda d: d["name"].encode()):
                    if any(re.search(r, t.payee) for r in d.get("payee", ())):
                        acct = d["name"]
                        break
            if acct is None:
                acct = self.accounts.find(p["a"])
            q = P(acct, p["k"], None, None, payee=t.payee,
                  vals=t.vals + [[x, None] for x in p.get("tags", ())] + list(p.get("vals", ())))
            if p.get("amt"):
                q.amt, q.comm = dec(p["amt"][0]), self.comms.find(p["amt"][1])
            if p.get("cost"):
                how, x, c = p["cost"]
                q.cost = (how, dec(x), self.comms.find(c))
                unit = q.cost[1] if how == "@" else q.cost[1] / abs(q.amt)
                self.prices.append((t.date, q.comm, unit, q.cost[2]))
            if p.get("bal"):
                q.bal = (dec(p["bal"][0]), self.comms.find(p["bal"][1]))
            t.posts.append(q)
        return t

    def _balance(self, again=False):
        held = {}
        for t in self.txns:
            try:
                self._balance_one(t, held, again)
            except Refused as e:
                e.txn = t
                raise

    def _balance_one(self, t, held, again):
        vb = Bal()
        for p in t.posts:
            if p.kind != "R" and p.amt is None:
                raise Refused("virtual posting without amount")
            if p.kind == "B":
                vb.add(*value(p))
        if not vb.can_be_zero():
            raise Refused("bracketed virtual postings do not balance")
        tb, out, blanks = Bal(), [], []
        for p in t.posts:
            if p.kind != "R":
                continue
            h = held.setdefault(p.acct, Bal())
            if p.amt is not None:
                if p.comm is not None:
                    h.add(p.comm, p.amt)
                if p.bal and not self.nocheck and h.get(p.bal[1], 0) != p.bal[0]:
                    raise Refused("balance assertion fails")
                if p.comm is not None:
                    tb.add(*value(p))
                out.append(p)
            elif p.bal and not self.nocheck:
                diff = Bal().add(p.bal[1], p.bal[0])
                for c, x in h.items():
                    diff.add(c, -x)
                if len(diff) > 1:
                    raise Refused("balance assignment needs several commodities")
                p.amt, p.comm = F(0), None
                for c, x in diff.items():
                    p.amt, p.comm = x, c
                    tb.add(c, x)
                held[p.acct] = Bal().add(p.bal[1], p.bal[0])
                out.append(p)
            else:
                blanks.append(p)
        if len(blanks) > 1:
            raise Refused("several postings without amount")
        if blanks:
            b = blanks[0]
            for c in sorted(tb):
                held.setdefault(b.acct, Bal()).add(c, -tb[c])
                out.append(P(b.acct, "R", -tb[c], c, payee=b.payee, vals=b.vals))
        else:
            if not tb.can_be_zero():
                raise Refused("transaction does not balance")
            if len(tb) == 2 and not again:
                c1, c2 = sorted(tb)
                self.prices.append((t.date, c1, abs(tb[c2]) / abs(tb[c1]), c2))
        t.posts = out + [p for p in t.posts if p.kind != "R"]

    def _automate(self):
        for t in self.txns:
            for rule in self.autos:
                extra = []
                for p in t.posts:
                    if p.auto or not query_match(rule["q"], p, t):
                        continue
                    p.vals.extend([x, None] for x in rule.get("tags", ()))
                    for q in rule["posts"]:
                        self.accounts.use(q["a"])
                        acct = self.accounts.find(q["a"])
                        if q.get("amt"):
                            extra.append(P(acct, q["k"], dec(q["amt"][0]), self.comms.find(q["amt"][1]),
                                           payee=p.payee, auto=True))
                        else:
                            # a sum of no money is shown without a commodity
                            comm = p.comm if p.amt or q.get("style") != 5 else None
                            extra.append(P(acct, q["k"], p.amt * dec(q["mul"]), comm, payee=p.payee, auto=True))
                t.posts.extend(extra)

    # -- reports ---------------------------------------------------------------
    def select(self, begin=None, end=None, real=False, q=None):
        for t in self.txns:
            if begin and t.date < begin:
                continue
            if end and t.date >= end:
                continue
            for p in t.posts:
                if real and p.kind != "R":
                    continue
                if q and not query_match(q, p, t):
                    continue
                yield t, p

    def shown_payee(self, t):
        return self.payees.find(t.desc) or t.desc

    def register(self, **kw):
        """[(date, payee shown, [(account shown, money)...])] in date order."""
        out, last = [], None
        for t, p in self.select(**kw):
            if t is not last:
                out.append((t.date, self.shown_payee(t), []))
                last = t
            out[-1][2].append((p.shown(), p.money()))
        return out

    def balances(self, **kw):
        r = {}
        for t, p in self.select(**kw):
            b = r.setdefault(p.acct, Bal())
            if p.comm is not None:
                b.add(p.comm, p.amt)
        return r

    def total(self, **kw):
        b = Bal()
        for x in self.balances(**kw).values():
            b = b.plus(x)
        return b


def tree_sums(bals):
    r = {}
    for a, b in bals.items():
        parts = a.split(":")
        for i in range(1, len(parts) + 1):
            n = ":".join(parts[:i])
            r[n] = r.get(n, Bal()).plus(b)
    return r


def path_key(a):
    return [x.encode() for x in a.split(":")]


def flat_lines(bals, depth=None):
    """[(account, [money...])] of bal --flat"""
    if depth is not None:
        r = {}
        for a, b in bals.items():
            if b:
                n = ":".join(a.split(":")[:depth])
                r[n] = r.get(n, Bal()).plus(b)
        bals = r
    return [(a, bals[a].lines()) for a in sorted(bals, key=path_key) if bals[a]]


def tree_lines(bals, depth=None):
    """[(level, text, [money...])] of the tree balance: an account whose money is all in
    an only child is shown on one line with it."""
    sums = {a: b for a, b in tree_sums(bals).items() if b}
    names = sorted(sums, key=path_key)
    out, i = [], 0
    while i < len(names):
        a = names[i]
        if depth is not None and len(a.split(":")) > depth:
            i += 1
            continue
        text = a.split(":")[-1]
        level = len(a.split(":"))
        cur = a
        while True:
            below = [x for x in names if x.startswith(cur + ":")]
            if not below:
                break
            c = below[0]
            if len(c.split(":")) != len(cur.split(":")) + 1 or sums[c] != sums[cur]:
                break
            if not all(x == c or x.startswith(c + ":") for x in below):
                break
            text += ":" + c.split(":")[-1]
            cur = c
            i += 1
        out.append((level, text, sums[a].lines()))
        i += 1
    return out


# -- queries: [["a"|"p"|"t", word, joiner], ...]  joiner of the term with the one before
OPS = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b,
       "==": lambda a, b: a == b}


def numeric(e, p):
    if isinstance(e, str):
        return p.amt if e == "amount" else dec(e)
    if e[0] == "abs":
        return abs(numeric(e[1], p))
    if e[0] == "neg":
        return -numeric(e[1], p)
    a, b = numeric(e[1], p), numeric(e[2], p)
    return a + b if e[0] == "+" else a - b if e[0] == "-" else a * b if e[0] == "*" else a / b


def expr_match(e, p, t):
    k = e[0]
    if k == "amount":
        return OPS[e[1]](p.amt, dec(e[2]))
    if k == "abs":
        return OPS[e[1]](abs(p.amt), dec(e[2]))
    if k == "arith":
        return OPS[e[2]](numeric(e[1], p), numeric(e[3], p))
    if k == "date":
        return OPS[e[1]](t.date, e[2])
    if k == "account":
        return re.search(e[1], p.acct) is not None
    if k == "payee":
        return re.search(e[1], p.payee or "") is not None
    if k == "note":
        return any(re.search(e[1], n) for n in t.notes)
    if k == "has_tag":
        return any(re.search(e[1], x) for x, _ in p.vals)
    if k in ("tag", "tageq", "tagre"):
        # the first one counts
        for n, v in p.vals:
            if n == e[1] if k != "tagre" else re.search(e[1], n):
                return v is not None and (v == e[2] if k == "tageq" else re.search(e[2], v) is not None)
        return False
    if k == "money":
        if e[1] == "==":
            return p.amt == dec(e[2]) and (p.comm == e[3] or (p.comm is None and p.amt == 0))
        return OPS[e[1]](p.amt, dec(e[2]))
    if k == "sp":
        return expr_match(e[2], p, t)
    if k == "any":
        return any(expr_match(e[1], q, t) for q in t.posts)
    if k == "not":
        return not expr_match(e[1], p, t)
    a, b = expr_match(e[1], p, t), expr_match(e[2], p, t)
    return (a and b) if k == "and" else (a or b)


def term_match(kind, w, p, t=None):
    if kind == "e":
        return expr_match(w, p, t)
    if kind == "/":
        return re.search(w, p.acct) is not None
    r = re.compile(w, re.I)
    if kind == "a":
        return r.search(p.acct) is not None
    if kind == "p":
        return r.search(p.payee or "") is not None
    return any(r.search(x) for x, _ in p.vals)


def query_match(q, p, t=None):
    """and binds tighter than or; a missing joiner means or"""
    groups = []
    for kind, w, j in q:
        v = term_match(kind, w, p, t)
        if groups and j == "and":
            groups[-1] = groups[-1] and v
        else:
            groups.append(v)
    return any(groups)


def query_args(q):
    r = []
    for i, (kind, w, j) in enumerate(q):
        if i and j:
            r.append(j)
        if kind == "e":
            import gen
            r += ["expr", gen.wexpr(w)]
        elif kind == "/":
            r.append("/%s/" % w)
        else:
            r.append({"a": "", "p": "@", "t": "%"}[kind] + w)
    return r


# -- conversion ------------------------------------------------------------------
def multipliers(prices, target, today):
    """{commodity: set of acceptable factors} into target.

    Per pair of commodities only the newest price dated up to today counts; where there
    are several of that day any of them may be the one. A chain of prices is as long as the
    number of days it moves between its prices; among the chains to the newest quotation of
    a commodity the shortest count, any of them if several are."""
    day = lambda s: datetime.date.fromisoformat(s).toordinal()
    newest = {}
    for d, c, x, o in prices:
        if d > today or c == o:
            continue
        k = tuple(sorted((c, o)))
        if k not in newest or newest[k][0] < d:
            newest[k] = (d, [(c, x, o)])
        elif newest[k][0] == d:
            newest[k][1].append((c, x, o))
    source = (target, day(today))
    edges, by = {}, {target: {source}}
    for (k0, k1), (d, quotes) in newest.items():
        a, b = (k0, day(d)), (k1, day(d))
        by.setdefault(k0, set()).add(a)
        by.setdefault(k1, set()).add(b)
        f = {x if c == k0 else 1 / x for c, x, o in quotes}   # one k0 in k1
        edges.setdefault(a, []).append((b, f))
        edges.setdefault(b, []).append((a, {1 / x for x in f}))
    dist, todo = {}, [(0, source)]
    while todo:
        d, n = heapq.heappop(todo)
        if n in dist:
            continue
        dist[n] = d
        for m in by[n[0]]:
            heapq.heappush(todo, (d + abs(m[1] - n[1]), m))
        for m, _ in edges.get(n, ()):
            heapq.heappush(todo, (d, m))
    out = {}
    for c in by:
        top = max(by[c], key=lambda n: n[1])
        if c == target or top not in dist:
            continue
        found = set()

        def walk(n, f, seen):
            if n[0] == target:
                found.add(f)
                return
            for m in by[n[0]]:
                if m not in seen and m in dist and dist[m] + abs(m[1] - n[1]) == dist[n]:
                    walk(m, f, seen | {m})
            for m, fac in edges.get(n, ()):
                if m not in seen and dist.get(m) == dist[n]:
                    for g in fac:
                        walk(m, f * g, seen | {m})

        walk(top, F(1), {top})
        out[c] = found
    return out
