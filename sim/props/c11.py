"""Register, balances and totals all add up to the same money."""
import gen, model, out
from lib import *
from fractions import Fraction as F

COUNT = (7500, 220000)
RULE = ("A random journal (several commodities, small amounts that only differ after the second decimal, accounts that cancel "
        "out, parents with money of their own, sibling names that are prefixes of each other) and a random filter; register, "
        "flat, tree, depth-limited and total-less balance are run under random hash keys, listing order and read splitting and "
        "compared with the exact sums of the reference model, running totals included.")
KEEP = ("filter", "depth")
ACCTS = ["Assets", "Assets:Bank", "Assets:Bank:Main", "Assets:Bank:Main:Sub", "Assets:Bank Two", "Assets:Bank-x", "Assets:Bankable",
         "Expenses", "Expenses:Food", "Expenses:Food:Out", "Expenses:Food:Out:Late", "Expenses:Foodie", "A:B:C:D", "A:B", "A:B:C:E", "Zed",
         "Income:Job", "Income:Job:Bonus", "Expenses and more:X", "Deudas:Niño", "Deudas:Ola",
         "assets:Till", "ASSETS:Box", "expenses:Food:Tips", "a:B:C:F"]


def make(rng, tier):
    o, items = gen.journal(rng, accts=rng.sample(ACCTS, rng.choice([3, 5, 8, 12])), n=gen.count(rng, [1, 2, 4, 8, 14]), prices=0,
                           autos=rng.choice([0, 0, 0, 1]), directives=False)
    txns = [it for it in items if it["t"] == "txn"]
    if rng.random() < 0.4:
        # undo some, so that accounts cancel out
        for t in rng.sample(txns, min(len(txns), rng.choice([1, 2, 4]))):
            items.append({"t": "txn", "date": t["date"], "desc": "Undo", "posts": [
                dict(p, amt=[gen.fdec(-F(p["amt"][0])), p["amt"][1]]) if p["amt"] else p for p in t["posts"]]})
    if rng.random() < 0.4:
        # thousandths that only add up exactly
        c = rng.choice(o.comms)
        for _ in range(rng.randint(1, 4)):
            x = F(rng.choice([5, -5, 15, 25, -25, 4, -4, 1, 9995, -9995, 994, 995, -995, 1005]), 1000)
            if rng.random() < 0.3:
                x = x / rng.choice([10, 100, 10**6])
            items.append({"t": "txn", "date": gen.day(o.base + rng.randrange(o.days)), "desc": "Dust", "posts": [
                gen.post(rng.choice(o.accts), x, c), gen.post(rng.choice(o.accts))]})
    if rng.random() < 0.3:
        # everything in one subtree: parents collapse
        a = rng.choice(o.accts)
        items.append({"t": "txn", "date": "2021-01-05", "desc": "Deep", "posts": [gen.post(a + ":Only:Child", 7, o.comms[0]),
                                                                                gen.post(a + ":Only:Child:Too" if rng.random() < 0.5 else "Zed")]})
    if rng.random() < 0.2:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    flt = {}
    if rng.random() < 0.2:
        flt["real"] = True
    if rng.random() < 0.2:
        flt["begin"] = gen.day(o.base + rng.randrange(o.days))
    if rng.random() < 0.2:
        flt["end"] = gen.day(o.base + rng.randrange(o.days + 1))
    if rng.random() < 0.3:
        flt["q"] = [[rng.choice("aap"), rng.choice(["bank", "Food", "e", "Gro", "assets:", "out", "undo"]), None]]
    return {"tree": gen.spread(rng, items, maxdepth=1), "filter": flt, "depth": rng.choice([1, 2, 3, 4]), "pert": swarm(rng)}


def filter_args(f):
    a = []
    if f.get("real"):
        a.append("--real")
    if f.get("begin"):
        a += ["--begin", f["begin"]]
    if f.get("end"):
        a += ["--end", f["end"]]
    if f.get("q"):
        a += model.query_args(f["q"])
    return a


def flatrows(rows):
    return [(n, sorted(m)) for _, n, m in rows]


def treerows(rows):
    """[(level, name, money)]; two blanks per level"""
    return [(sp // 2, n, sorted(m)) for sp, n, m in rows]


def check(s, ctx):
    files = gen.render(s["tree"])
    led = model.Ledger(gen.flatten(s["tree"]))
    sel = dict(s["filter"])
    fa = filter_args(sel)

    def run(cmd):
        r = ctx.run(world(cmd + fa + ["-f", MAIN], files, s["pert"]))
        expect(r.ok, "refused", "dinero %s on %s gives %s" % (" ".join(cmd + fa), show(files), r.brief()))
        return r.out, "dinero %s on %s" % (" ".join(cmd + fa), show(files))

    bals = led.balances(**sel)
    total = led.total(**sel)
    total = total.lines() or ["0"]

    o, what = run(["reg"])
    d = regdiff(o, led.register(**sel))
    expect(d is None, "wrong register", "%s: %s" % (what, d))
    running(o, led, sel, what)

    for depth in (None, s["depth"]):
        dd = [] if depth is None else ["--depth", str(depth)]
        for notot in ([False, True] if depth is None else [False]):
            for flat in (True, False):
                o, what = run(["bal"] + (["--flat"] if flat else []) + dd + (["--no-total"] if notot else []))
                rows, tot = out.balance(o)
                if flat:
                    want = [(a, sorted(m)) for a, m in model.flat_lines(bals, depth)]
                    got = flatrows(rows)
                else:
                    want = [(l, n, sorted(m)) for l, n, m in model.tree_lines(bals, depth)]
                    got = treerows(rows)
                expect(got == want, "wrong flat balance" if flat else "wrong tree balance",
                       "%s: shows %s instead of %s" % (what, got, want))
                if not notot and len(want) > 1:
                    expect(tot is not None and sorted(tot) == sorted(total), "wrong total", "%s: total %s instead of %s" % (what, tot, total))
                else:
                    expect(tot is None or (not notot and sorted(tot) == sorted(total)), "wrong total",
                           "%s: unexpected total %s" % (what, tot))
    ctx.probe("%s accounts" % ("no" if not bals else "one" if len(bals) == 1 else "several"))


def running(raw, led, sel, what):
    got = out.register(raw)
    i, bal = 0, model.Bal()
    cur, groups = None, []
    for t, p in led.select(**sel):
        if t is not cur:
            groups.append([])
            cur = t
        groups[-1].append(p)
    for (d, y, lines), posts in zip(got, groups):
        left = list(posts)
        for a, m, run in lines:
            c = [p for p in left if (p.shown(), p.money()) == (a, m)]
            if len({(p.amt, p.comm) for p in c}) > 1:
                return   # which is which cannot be told
            left.remove(c[0])
            if c[0].comm is not None:
                bal.add(c[0].comm, c[0].amt)
            want = bal.lines() or ["0"]
            expect(sorted(run) == sorted(want), "wrong running total", "%s: after %s %s %s the running total is %s instead of %s"
                   % (what, d, a, m, run, want))
