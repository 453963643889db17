"""Automated transactions apply exactly once per matching posting."""
import gen, model, out
from fractions import Fraction as F
from lib import *
from props.c09 import verdict

COUNT = (14000, 400000)
RULE = ("A random journal and one to four rules (account, payee and tag terms, value expressions with any(), not, dates, amounts "
        "and notes; fixed amounts and multiples written as factor or expression; real, bracketed and free postings, some of "
        "them unbalanced; rules that tag what they match, rules that match accounts of other rules), written before, between "
        "or after the transactions and spread over files, under random hash keys, listing order and read splitting. Verdict, "
        "register and flat balance have to be what the reference model says and must not change when the rules move to "
        "another place, keeping their order.")
KEEP = ("args",)


def rule(rng, o, n, alias=([], [])):
    q = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice("aaapte/")
        w = {"a": ["expenses", "Bank", "food", "income:", "Assets", "Budget", "Auto", "^exp", "card$", "unknown"],
             "p": ["grocer", "ACME", "rent", "Café", "shop"], "t": ["trip", "home", "ref", "auto", "o"],
             "/": ["Exp", "^Assets", "Food$", "Auto:", "Bank Two", "s old", "c g", "Rule [0-9]", " x"], "e": [gen.expr(rng, o)]}[k]
        q.append([k, rng.choice(w), rng.choice([None, "and", "and", "or"]) if i else None])
    posts = []
    how = rng.random()
    names = ["Auto:One", "Auto:Two", "Budget:Food", "Rule %d" % n, "Auto:Food"] + alias[0]

    def sum_to_zero(k, form):
        if form == "mul":
            x = rng.choice(["0.5", "1", "-1", "0.25", "2", "-0.1", "0.123"])
            a, b = {"mul": x}, {"mul": x[1:] if x[0] == "-" else "-" + x}
            if rng.random() < 0.3:
                a["style"] = rng.choice([1, 2, 3, 4, 5] if 0 < F(x) <= 1 else [1, 2, 3, 4] if F(x) <= 1 else [1, 2, 3, 5])
        else:
            x, c = gen.number(rng), rng.choice(o.comms + ["NEW"] + alias[1])
            a, b = {"amt": [gen.fdec(x), c]}, {"amt": [gen.fdec(-x), c]}
            if rng.random() < 0.15:
                (a if x > 0 else b)["style"] = rng.choice([1, 2, 3, 4, 5])
        return [dict(a, a=rng.choice(names), k=k), dict(b, a=rng.choice(names), k=k)]

    for _ in range(rng.choice([1, 1, 1, 2])):
        form = rng.choice(["mul", "mul", "amt"])
        if how < 0.4:
            posts.append(sum_to_zero("V", form)[0])
        else:
            posts += sum_to_zero(rng.choice("RB"), form)
    if rng.random() < 0.08:
        posts.pop(rng.randrange(len(posts)))
    if rng.random() < 0.1 and posts:
        posts.append(dict(rng.choice(posts)))
    r = {"t": "auto", "q": q, "posts": posts}
    if rng.random() < 0.2:
        r["tags"] = [rng.choice(["auto", "trip", "seen"])]
    return r


def make(rng, tier):
    o, items = gen.journal(rng, autos=0, prices=0, n=gen.count(rng, [1, 2, 3, 4, 6]), virtual=rng.random() < 0.5, tags=rng.random() < 0.6,
                           implied=rng.random() < 0.15)
    if rng.random() < 0.3:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    alias = ([], [])
    for it in items:
        # other names of what the journal declares
        if it["t"] in ("acct", "comm") and rng.random() < 0.5:
            alias[it["t"] == "comm"].extend(it["alias"] + ([gen.recase(rng, it["name"])] if it["t"] == "acct" else []))
    if rng.random() < 0.1:
        # an account that already has what it is assigned
        a, c = "Full:Up", rng.choice(o.comms)
        items.append({"t": "txn", "date": "2021-01-01", "desc": "Fill", "posts": [gen.post(a, 8, c), gen.post("Assets:Rest")]})
        items.append({"t": "txn", "date": "2021-01-04", "desc": "Level", "posts": [dict(gen.post(a), bal=["8", c]), gen.post("Assets:Zero", 0, c)]})
    rules = [rule(rng, o, n, alias) for n in range(rng.choice([1, 1, 2, 3, 4]))]
    if len(rules) > 1 and rng.random() < 0.15:
        # the same query, or the same whole rule, twice
        rules[-1] = dict(rules[0]) if rng.random() < 0.5 else dict(rules[-1], q=rules[0]["q"])
    s = {"q": [], "pert": swarm(rng), "trees": [gen.spread(rng, place(rng, items, rules), maxdepth=2) for _ in range(2)]}
    if rng.random() < 0.5:
        k = rng.choice("apt")
        s["q"] = [[k, rng.choice({"a": ["Auto", "exp", "Budget"], "p": ["gro", "shop"], "t": ["auto", "trip", "seen"]}[k]), None]]
    return s


def place(rng, items, rules):
    how = rng.randrange(3)
    if how == 0:
        return rules + items
    if how == 1:
        return items + rules
    at = sorted(rng.randint(0, len(items)) for _ in rules)
    r = list(items)
    for n, (i, x) in enumerate(zip(at, rules)):
        r.insert(i + n, x)
    return r


def check(s, ctx):
    q = s["q"]
    seen = None
    for tree in s["trees"]:
        files = gen.render(tree)
        items = gen.flatten(tree)
        args = ["reg"] + model.query_args(q) + ["-f", MAIN]
        r = ctx.run(world(args, files, s["pert"]))
        what = "dinero %s on %s" % (" ".join(args), show(files))
        led = verdict(r, lambda: model.Ledger(items), what, ctx, q=q or None)
        if led is None:
            continue
        n = sum(p.auto for t in led.txns for p in t.posts)
        ctx.probe("automated postings", n)
        args = ["bal", "--flat", "-f", MAIN]
        b = ctx.run(world(args, files, s["pert"]))
        what = "dinero %s on %s" % (" ".join(args), show(files))
        expect(b.ok, "refused", "%s: valid, but the run gives %s" % (what, b.brief()))
        rows, _ = out.balance(b.out)
        got = [(x, sorted(m)) for _, x, m in rows]
        want = [(x, sorted(m)) for x, m in model.flat_lines(led.balances())]
        expect(got == want, "wrong balance", "%s: shows %s instead of %s" % (what, got, want))
        # the model must not depend on where the rules are written either
        if seen is not None and sorted(map(str, items)) == seen[0]:
            expect(got == seen[1], "place matters", "%s: shows %s, but %s with the rules elsewhere" % (what, got, seen[1]))
        seen = (sorted(map(str, items)), got)
