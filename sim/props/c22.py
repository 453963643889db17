"""The price list is complete: every price written or implied, once."""
import gen, model
from lib import *

COUNT = (24000, 500000)
RULE = ("A random journal with price directives, costs per unit and in total, implied exchanges and automated rules, commodities used "
        "by alias or in other case, spread over files in random order; the prices listing is run under random hash keys, "
        "listing order, read splitting and interrupted reads and writes and compared line by line, leaving the order open, with the prices of the reference model.")
ASSUME = ["the order of the list is not claimed (C01 fixes that it is always the same)"]


def make(rng, tier):
    o, items = gen.journal(rng, comms=rng.sample(gen.COMMS, rng.choice([2, 3, 4])), prices=rng.choice([0, 1, 3, 8]), autos=rng.choice([0, 0, 1, 2]),
                           cost=rng.random() < 0.6, implied=rng.random() < 0.6, n=gen.count(rng, [1, 2, 4, 7]))
    if rng.random() < 0.4:
        items = gen.enrich(rng, o, items)
        alias = {it["name"]: it["alias"] for it in items if it["t"] == "comm" and it["alias"]}
        for it in items:
            if it["t"] == "price":
                for k in "co":
                    if it[k] in alias and rng.random() < 0.5:
                        it[k] = alias[it[k]][0]
    if rng.random() < 0.2:
        p = [it for it in items if it["t"] == "price"]
        if p:
            # the same price again, and the same pair on the same day with another value
            q = dict(rng.choice(p))
            items.append(q)
            items.append(dict(q, n=gen.fdec(gen.number(rng, True))))
            items.append(dict(q, c=q["o"], o=q["c"]))
    rng.shuffle(items)
    gen.style_up(rng, items)
    return {"tree": gen.spread(rng, items, maxdepth=2, multi=True), "pert": swarm(rng)}


def check(s, ctx):
    files = gen.render(s["tree"])
    led = model.Ledger(gen.flatten(s["tree"]))
    r = ctx.run(world(["prices", "-f", MAIN], files, s["pert"]))
    what = "dinero prices on %s" % show(files)
    expect(r.ok, "refused", "%s gives %s" % (what, r.brief()))
    got = r.out.decode().split("\n")
    expect(got.pop() == "", "unfinished line", "%s ends without a newline" % what)
    want = sorted("%s %s %s" % (d, c, model.money(x, o)) for d, c, x, o in led.prices)
    ctx.probe("prices", len(want))
    expect(sorted(got) == want, "wrong price list", "%s: shows %s instead of %s" % (what, sorted(got), want))
