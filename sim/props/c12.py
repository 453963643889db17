"""Date windows and filters select exactly the right postings."""
import datetime
import gen, model, out
from lib import *

COUNT = (8000, 300000)
RULE = ("A random journal with virtual postings, tags and aliases and a random set of cut days, terms joined by and/or and "
        "options; whole report, windows and filtered reports (register and flat balance) are compared with the reference "
        "model, consecutive windows have to split the register without loss or overlap. Some runs give the dates as year, "
        "month, today, yesterday or tomorrow with the simulated clock set to random instants, preferably next to midnight, "
        "the turn of a month or year or a leap day, in random time zones.")
KEEP = ("q",)
WORDS = {"a": ["exp", "Bank", "food", "assets:", "^A", "Main$", "budget", "unknown", "e", "Niño", "b.*k", "cash", "(food|rent)"],
         "p": ["gro", "ACME", "shop", "café", "^Rent", "o$", "Landlord", "x", "[ck]io"],
         "/": ["Exp", "^Assets", "Food$", "Bank:", "food", "Bank Two", "s old:", "c g"],
         "t": ["trip", "home", "TAX", "o", "ref", "^work$"]}
ZONES = [("UTC0", 0), ("EST5", -5), ("JST-9", 9), ("AAA11", -11), ("BBB-13", 13), ("IST-5:30", 5.5), ("CET-1CEST,M3.5.0,M10.5.0/3", None),
         ("EST5EDT,M3.2.0,M11.1.0", None), ("NZST-12NZDT,M9.5.0,M4.1.0/3", None)]
SPOTS = ["2021-03-01T00:00:00", "2020-12-31T23:59:59", "2021-01-01T00:00:00", "2024-02-29T12:00:00", "2024-03-01T00:00:00",
         "2021-06-15T23:59:59", "2021-11-30T23:59:00", "2023-02-28T23:59:59", "2021-07-04T10:00:00", "2021-03-28T00:30:00", "2021-03-28T23:30:00", "2021-10-31T23:30:00", "2021-10-31T00:30:00",
         "2021-03-14T00:30:00", "2021-03-14T23:30:00", "2021-11-07T23:30:00", "2021-11-07T00:30:00", "2021-09-26T00:30:00", "2021-04-04T23:30:00"]


def make(rng, tier):
    o, items = gen.journal(rng, n=gen.count(rng, [2, 4, 6, 10]), days=rng.choice([2, 5, 40, 400, 900]), prices=0,
                           virtual=rng.random() < 0.6, tags=rng.random() < 0.6, autos=rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.4:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    o.onemoney = len(o.comms) == 1
    q = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.choice("aapte/")
        q.append([k, gen.expr(rng, o) if k == "e" else rng.choice(WORDS[k]), rng.choice([None, "and", "and", "or"]) if i else None])
    if q and rng.random() < 0.25:
        # the same word again, in another case or of another kind
        k, w, _ = rng.choice(q)
        if k != "e":
            k2 = rng.choice([k, k, "a", "p", "/"])
            q.insert(rng.randint(0, len(q)), [k2, rng.choice([w, w.swapcase(), w.lower(), w.capitalize()]), rng.choice([None, "and", "or"])])
            q[0][2] = None
    names = sorted({it["desc"] for it in items if it["t"] == "txn"}), sorted({p["a"] for it in items if it["t"] == "txn" for p in it["posts"]})
    if rng.random() < 0.3:
        # two terms that begin alike, cut from the names of the journal
        k = rng.choice("app/")
        n = rng.choice(names[k != "p"])
        n = rng.choice([n, n, n[:9], n[2:], n[:-1]]).strip()
        if n and n.replace(" ", "").replace(":", "").isalpha():
            q2 = [[k, rng.choice([n, n + "z", n[:-1] + "z", n[:4], n + " ", n.lower()]).strip() or "x", rng.choice([None, None, "and"])] for _ in range(rng.choice([1, 2]))]
            q = (q + q2) if rng.random() < 0.5 else q2 + [[k, n, None]]
            q[0][2] = None
    s = {"tree": None, "q": q, "real": rng.random() < 0.3, "pert": swarm(rng), "forms": rng.randrange(1000), "rel": None}
    if rng.random() < 0.06:
        # dates relative to the clock
        z, off = rng.choice(ZONES)
        now = datetime.datetime.fromisoformat(rng.choice(SPOTS)) + datetime.timedelta(seconds=rng.choice([-1, 0, 1, 1, -3600, 3600 * rng.randint(-20, 20)]))
        word, delta = rng.choice([("today", 0), ("yesterday", -1), ("tomorrow", 1), ("today", 0)])
        if rng.random() < 0.25:
            word, delta = str(now.year), None
        s["rel"] = [z, off, now.isoformat(), word, delta, rng.choice(["begin", "end"])]
        d = now.date()
        for k in (-2, -1, 0, 1, 2):
            t = gen.txn(rng, o)
            t["date"] = (d + datetime.timedelta(days=k)).isoformat()
            items.append(t)
        t = gen.txn(rng, o)
        t["date"] = "%d-12-31" % (d.year - 1)
        items.append(t)
    days = sorted({it["date"] for it in items if it["t"] == "txn"})
    cuts = set()
    for _ in range(rng.choice([1, 2, 2, 3])):
        d = gen.ordinal(rng.choice(days)) + rng.choice([0, 0, 1, -1, 7])
        cuts.add(gen.day(d))
    s["cuts"] = sorted(cuts)
    s["tree"] = gen.spread(rng, items, maxdepth=1)
    return s


def sunday(y, m, n):
    """The n-th Sunday of a month, 5 being the last"""
    d = [datetime.date(y, m, k) for k in range(1, 32) if k <= 28 or (datetime.date(y, m, 28) + datetime.timedelta(days=k - 28)).month == m]
    d = [x for x in d if x.weekday() == 6]
    return datetime.datetime.combine(d[-1] if n == 5 else d[n - 1], datetime.time())


def local(z, utc):
    """Clock on the wall in a zone with summer time"""
    h = lambda x: datetime.timedelta(hours=x)
    y = utc.year
    if z.startswith("CET"):
        summer = sunday(y, 3, 5) + h(1) <= utc < sunday(y, 10, 5) + h(1)
        return utc + h(2 if summer else 1)
    if z.startswith("EST"):
        summer = sunday(y, 3, 2) + h(7) <= utc < sunday(y, 11, 1) + h(6)
        return utc + h(-4 if summer else -5)
    summer = not (sunday(y, 4, 1) + h(3 - 13) <= utc < sunday(y, 9, 5) + h(2 - 12))
    return utc + h(13 if summer else 12)


def spell(d, form):
    y, m, dd = d.split("-")
    if dd == "01" and form % 5 == 0:
        return [y + "-" + m, "%s/%d" % (y, int(m))][form // 5 % 2]
    return [d, d.replace("-", "/"), "%s-%d-%d" % (y, int(m), int(dd)), "%s/%s/%d" % (y, m, int(dd))][form % 4]


def check(s, ctx):
    files = gen.render(s["tree"])
    led = model.Ledger(gen.flatten(s["tree"]))
    n = [0]

    def opts(begin, end, real, q):
        n[0] += 1
        f = s["forms"] + n[0] * 7
        a = []
        if begin:
            b = spell(begin, f)
            a += [["--begin", b], ["-b", b], ["--begin=" + b]][f % 3]
        if end:
            e = spell(end, f + 1)
            a += [["--end", e], ["-e", e], ["--end=" + e]][f % 3]
        if real:
            a.append("--real")
        return a + model.query_args(q or [])

    def run(cmd, **kw):
        r = ctx.run(world(cmd + ["-f", MAIN], files, s["pert"], **kw))
        what = "dinero %s on %s" % (" ".join(cmd), show(files))
        expect(r.ok, "refused", "%s gives %s" % (what, r.brief()))
        return r.out, what

    def compare(begin=None, end=None, real=False, q=None, args=None, **kw):
        a = opts(begin, end, real, q) if args is None else args
        sel = dict(begin=begin, end=end, real=real, q=q or None)
        o, what = run(["reg"] + a, **kw)
        d = regdiff(o, led.register(**sel))
        expect(d is None, "wrong selection", "%s: %s" % (what, d))
        reg = out.register(o)
        o, what = run(["bal", "--flat"] + a, **kw)
        rows, _ = out.balance(o)
        got = [(x, sorted(m)) for _, x, m in rows]
        want = [(x, sorted(m)) for x, m in model.flat_lines(led.balances(**sel))]
        expect(got == want, "wrong selection", "%s: shows %s instead of %s" % (what, got, want))
        return reg

    if s["rel"]:
        z, off, now, word, delta, side = s["rel"]
        t = datetime.datetime.fromisoformat(now)
        if off is None:
            utc = t - datetime.timedelta(hours={"C": 1, "E": -5, "N": 12}[z[0]])
            t = local(z, utc)
        else:
            utc = t - datetime.timedelta(hours=off)
        ns = int((utc - datetime.datetime(1970, 1, 1)).total_seconds()) * 10**9
        d = "%s-01-01" % word if delta is None else (t.date() + datetime.timedelta(days=delta)).isoformat()
        env = dict(ENV, TZ=z)
        compare(**{side: d, "args": ["--" + side, word], "env": env, "clock": [ns, 1000]})
        ctx.probe("relative date " + ("year" if delta is None else word))
        return
    whole = compare()
    parts = []
    edges = [None] + s["cuts"] + [None]
    for b, e in zip(edges, edges[1:]):
        parts += compare(begin=b, end=e)
    strip = lambda reg: [(d, y, sorted((a, m) for a, m, _ in ps)) for d, y, ps in reg]
    expect(strip(parts) == strip(whole), "windows do not add up", "the windows cut at %s show %s, the whole %s; files %s"
           % (s["cuts"], strip(parts), strip(whole), show(files)))
    ctx.probe("windows", len(edges) - 1)
    if s["q"]:
        compare(q=s["q"])
        ctx.probe("terms", len(s["q"]))
    if s["real"] or s["q"]:
        compare(begin=s["cuts"][0], real=s["real"], q=s["q"])
