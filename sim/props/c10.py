"""Balance assertions see the account history in date order."""
import gen, model
from lib import *
from props.c09 import verdict
from fractions import Fraction as F

COUNT = (24000, 600000)
RULE = ("A random history on few accounts, written out of date order and spread over files, in which random postings get an "
        "assertion: the right one, or the one a plausible misreading would expect (order of the text instead of the dates, "
        "without the posting itself, without the blank, with virtual postings, of another account, off by a thousandth, "
        "another commodity), and some postings only an assertion; with and without --no-balance-check. Verdict and register "
        "have to be what the reference model says, and the same when the transactions are placed in other files.")
KEEP = ("args",)


def make(rng, tier):
    o = gen.Opts(rng, accts=rng.sample(gen.ACCTS, rng.choice([2, 2, 3, 4])), comms=rng.sample(gen.COMMS, rng.choice([1, 1, 2, 3])),
                 days=rng.choice([1, 2, 5, 60]), cost=rng.random() < 0.3, implied=rng.random() < 0.2,
                 virtual=rng.random() < 0.4, blank=rng.random() < 0.7, tags=False, bigsum=False)
    txns = [gen.txn(rng, o) for _ in range(rng.choice([2, 3, 4, 6, 9]) if rng.random() < 0.97 else rng.choice([22, 40]))]
    # histories: what the account holds after each posting in date order and in text order
    order = sorted(range(len(txns)), key=lambda i: txns[i]["date"])
    rate = rng.choice([0.1, 0.3, 0.6])
    wrong = rng.random() < 0.5
    held, prev = {}, {}
    text = history(txns, range(len(txns)))
    for i in order:
        t = txns[i]
        tb = model.Bal()
        for j, p in enumerate(t["posts"]):
            if p["k"] != "R":
                continue
            if not p["amt"]:
                continue
            h = held.setdefault(p["a"], {})
            c, x = p["amt"][1], F(p["amt"][0])
            before = h.get(c, F(0))
            h[c] = before + x
            if rng.random() < rate:
                v, cc = h[c], c
                if wrong and rng.random() < 0.3:
                    k = rng.randrange(7)
                    if k == 0:
                        v = text.get((i, j), v)
                    elif k == 1:
                        v = before
                    elif k == 2:
                        v = v + rng.choice([F(1, 1000), F(-1, 100), F(1, 10**9)])
                    elif k == 3:
                        cc = rng.choice(o.comms)
                        v = h.get(cc, F(0))
                    elif k == 4:
                        v = F(0)
                    elif k == 5:
                        v = x
                    else:
                        v = -v
                p["bal"] = [gen.fdec(v), cc]
            model_value = model.value(model.P(p["a"], "R", x, c, cost=(p["cost"][0], F(p["cost"][1]), p["cost"][2]) if p.get("cost") else None))
            tb.add(*model_value)
        for p in t["posts"]:
            if p["k"] == "R" and not p["amt"]:
                h = held.setdefault(p["a"], {})
                for c, x in tb.items():
                    h[c] = h.get(c, F(0)) - x
                if rng.random() < rate * 0.5:
                    # turn the blank into an assignment
                    if tb:
                        c = sorted(tb)[0]
                        v = h[c] + (rng.choice([F(1), F(1, 100)]) if wrong and rng.random() < 0.3 else 0)
                        p["bal"] = [gen.fdec(v), c]
    if rng.random() < 0.3:
        # an assignment against a blank: any value will do
        c = rng.choice(o.comms)
        txns.insert(rng.randint(0, len(txns)), {"t": "txn", "date": gen.day(o.base + rng.randrange(o.days)), "desc": "Adjust", "posts": [
            dict(gen.post(rng.choice(o.accts)), bal=[gen.fdec(gen.number(rng)), c]), gen.post("Equity:Adjust")]})
    items = txns
    if rng.random() < 0.25:
        items = gen.enrich(rng, o, items)
    if rng.random() < 0.15:
        # rules that leave the accounts of the history alone
        items = items + [gen.auto(rng, o)]
        if rng.random() < 0.5:
            rng.shuffle(items)
    items = gen.style_up(rng, items)
    return {"args": ["--no-balance-check"] if rng.random() < 0.2 else [], "tree": gen.spread(rng, items, maxdepth=2),
            "other": gen.spread(rng, items, maxdepth=2), "pert": swarm(rng)}


def history(txns, order):
    held, out = {}, {}
    for i in order:
        for j, p in enumerate(txns[i]["posts"]):
            if p["k"] == "R" and p["amt"]:
                h = held.setdefault((p["a"], p["amt"][1]), F(0)) + F(p["amt"][0])
                held[(p["a"], p["amt"][1])] = h
                out[(i, j)] = h
    return out


def check(s, ctx):
    files = gen.render(s["tree"])
    items = gen.flatten(s["tree"])
    nocheck = bool(s["args"])
    args = ["reg"] + s["args"] + ["-f", MAIN]
    r = ctx.run(world(args, files, s["pert"]))
    what = "dinero %s on %s" % (" ".join(args), show(files))
    verdict(r, lambda: model.Ledger(items, nocheck), what, ctx)
    if gen.flatten(s["other"]) == items:
        f2 = gen.render(s["other"])
        q = ctx.run(world(args, f2, s["pert"]))
        expect(alike(r, q), "place matters", "%s gives %s, but with the same transactions in the files %s it gives %s"
               % (what, r.brief(), show(f2), q.brief()))
