"""Only balanced transactions are accepted, and blanks are filled exactly."""
import re
import gen, model, out, part
from lib import *
from fractions import Fraction as F

COUNT = (36000, 800000)
RULE = ("A random journal of transactions with costs, exchanges, blanks and virtual postings, of which some get a defect of "
        "the smallest kind (an amount off by a thousandth or less, a sign, a second blank, a cost of the other kind, an "
        "unbalanced virtual pair, a missing posting) or a slip of the fingers in a posting, spread over files, run under random hash keys, listing order and read "
        "splitting; accepted or refused, and the amounts in the register, have to be what the reference model says.")
KEEP = ("args",)


def big(rng):
    """Numbers floats and 64-bit integers cannot hold."""
    d = rng.choice([1, 2, 9, 18, 25])
    p = rng.choice([0, 2, 9, 15, 20])
    n = rng.randint(1, 10 ** (d + p))
    return F(n, 10 ** p)


def bend(rng, t):
    """One defect, or none, in a transaction."""
    real = [p for p in t["posts"] if p["k"] == "R"]
    amts = [p for p in t["posts"] if p["amt"]]
    how = rng.randrange(10)
    if how <= 3 and amts:
        p = rng.choice(amts)
        e = rng.choice([F(1, 1000), F(1, 10**6), F(1, 100), F(1), F(1, 10**12), F(10)])
        p["amt"] = [gen.fdec(F(p["amt"][0]) + rng.choice([1, -1]) * e), p["amt"][1]]
        if p.get("cost") and F(p["amt"][0]) == 0:
            p["amt"][0] = "1"
    elif how == 4 and amts:
        p = rng.choice(amts)
        p["amt"] = [gen.fdec(-F(p["amt"][0])), p["amt"][1]]
    elif how == 5:
        t["posts"].insert(rng.randint(0, len(t["posts"])), gen.post("Extra:One"))
    elif how == 6:
        cs = [p for p in amts if p.get("cost")]
        if cs:
            p = rng.choice(cs)
            p["cost"] = ["@" if p["cost"][0] == "@@" else "@@"] + p["cost"][1:]
    elif how == 7 and t["posts"]:
        t["posts"].pop(rng.randrange(len(t["posts"])))
    elif how == 8:
        x = gen.number(rng)
        t["posts"] += [gen.post("Virt:One", x, "EUR", "B"), gen.post("Virt:Two", -x + rng.choice([0, F(1, 100), 1]), rng.choice(["EUR", "EUR", "USD"]), "B")]
    elif how == 9 and real:
        p = rng.choice(real)
        p["k"] = rng.choice(["V", "B"])


def make(rng, tier):
    o, items = gen.journal(rng, autos=0, prices=0, implied=rng.random() < 0.4, cost=rng.random() < 0.6,
                           virtual=rng.random() < 0.6, n=gen.count(rng, [1, 1, 2, 3, 5]))
    if rng.random() < 0.15:
        x = [big(rng) for _ in range(rng.choice([1, 2, 4]))]
        c = rng.choice(o.comms)
        posts = [gen.post(rng.choice(o.accts), y * rng.choice([1, -1]), c) for y in x]
        tot = sum(F(p["amt"][0]) for p in posts)
        posts.append(gen.post("Assets:Rest", -tot, c) if rng.random() < 0.5 else gen.post("Assets:Rest"))
        items.append({"t": "txn", "date": "2021-01-02", "desc": "Big", "posts": posts})
    txns = [it for it in items if it["t"] == "txn"]
    r = rng.random()
    if r < 0.6:
        bend(rng, rng.choice(txns))
        if r < 0.1:
            bend(rng, rng.choice(txns))
    if rng.random() < 0.15:
        # zero amounts
        t = rng.choice(txns)
        t["posts"].insert(rng.randint(0, len(t["posts"])), gen.post(rng.choice(o.accts), 0, rng.choice(o.comms)))
    gen.style_up(rng, items)
    if rng.random() < 0.25:
        # a slip of the fingers
        t = rng.choice(txns)
        p = rng.choice(t["posts"]) if t["posts"] and rng.random() < 0.7 else t
        if p is t or t["posts"]:
            line = (gen.witem(t)[0] if p is t else gen.wpost(p, t.get("style", 0))).split("\n")[0]
            for _ in range(rng.choice([1, 1, 1, 2])):
                if line.strip():
                    line = gen.typo(rng, line)
            p["raw"] = line
    return {"tree": gen.spread(rng, items, maxdepth=1), "pert": swarm(rng)}


def check(s, ctx):
    files = gen.render(s["tree"])
    items = gen.flatten(s["tree"])
    r = ctx.run(world(["reg", "-f", MAIN], files, s["pert"]))
    what = "dinero reg on %s" % show(files)
    if any("raw" in p for it in items for p in [it] + it.get("posts", [])):
        return slipped(r, items, what, ctx)
    verdict(r, lambda: model.Ledger(items), what, ctx)


def slipped(r, items, what, ctx):
    """Postings with a typing error in them count for what they say."""
    read = []
    for it in items:
        if it["t"] == "txn":
            if "raw" in it:
                h = part.header(it["raw"])
                if h == part.INVALID:
                    ctx.probe("slip in a header refused")
                    expect(not r.ok, "accepted", "%s: a header is malformed, but accepted, showing %r" % (what, r.out.decode("utf-8", "replace")[:500]))
                if isinstance(h, str):
                    return
                it = dict(it, date=h[0], desc=h[1])
            it = dict(it, posts=[part.posting(p["raw"]) if "raw" in p else p for p in it["posts"]])
            if part.INVALID in it["posts"]:
                ctx.probe("slip refused")
                expect(not r.ok, "accepted", "%s: a posting is malformed, but accepted, showing %r" % (what, r.out.decode("utf-8", "replace")[:500]))
                return
            it["posts"] = [p for p in it["posts"] if p != part.NOTHING]
            if part.UNKNOWN in it["posts"] or any(p.get("cost") and F((p["amt"] or ["0"])[0]) * F(p["cost"][1]) == 0 for p in it["posts"]):
                return
        read.append(it)
    try:
        led = model.Ledger(read)
    except model.Refused as e:
        ctx.probe("slip makes it invalid")
        expect(not r.ok, "accepted", "%s: not valid (%s), but accepted, showing %r" % (what, e, r.out.decode("utf-8", "replace")[:500]))
        return
    ctx.probe("slip accepted")
    expect(r.ok, "refused", "%s: valid, but the run gives %s" % (what, r.brief()))
    if all(re.fullmatch(r"[^\W\d]+|[$€]", c) or c == "Fund A" for c in led.comms.names.values()) \
            and not any("  " in a or a != a.strip("([])") for a in led.accounts.names.values()) and not re.search(rb"[0-9]{9}", r.out) \
            and not any("  " in t.desc or len(t.desc) > 35 for t in led.txns):
        got, want = out.register(r.out), led.register()
        expect(spelt(got, led) == spelt(want, led), "wrong register", "%s: shows %s instead of %s" % (what, got, want))


def verdict(r, ledger, what, ctx, **sel):
    """Accepted or refused, and the register, as the model says. Returns the ledger or None."""
    expect(not r.hung and r.sig == 0, "hung", "%s ends with %s" % (what, r.status))
    try:
        led = ledger()
    except model.Refused as e:
        ctx.probe("refused: %s" % e)
        expect(not r.ok, "accepted", "%s: not valid (%s), but accepted, showing %r" % (what, e, r.out.decode("utf-8", "replace")[:500]))
        expect(r.out == b"", "report of a refused run", "%s: refused after printing %r" % (what, r.out[:300]))
        return None
    ctx.probe("accepted")
    expect(r.ok, "refused", "%s: valid, but the run gives %s" % (what, r.brief()))
    want = led.register(**sel)
    d = regdiff(r.out, want)
    expect(d is None, "wrong register", "%s: %s" % (what, d))
    return led
