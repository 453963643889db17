"""Conversions use the newest price known on the day of the run."""
import itertools
import gen, model, out
from lib import *

COUNT = (20000, 500000)
RULE = ("A random journal with price directives, costs and implied exchanges (several days, several prices of one pair, both "
        "directions, chains over other commodities, prices dated after the run) spread over files in random order, and the "
        "simulated clock at a random instant, often the first or last second of a day on which prices start to count, in random time zones; flat and "
        "tree balance with -X and their totals are compared with the exact conversion of the reference model.")
KEEP = ("target",)
ASSUME = ["two prices of one pair on one day: either may count; chains of equal age: either may count"]


def make(rng, tier):
    chain = rng.random() < 0.2
    o, items = gen.journal(rng, comms=rng.sample(gen.COMMS, rng.choice([5, 6, 7, 8]) if chain else rng.choice([2, 3, 4, 5])), prices=0, autos=rng.choice([0, 0, 0, 1]),
                           cost=rng.random() < 0.5, implied=rng.random() < 0.4, n=rng.choice([2, 3, 5]), bigsum=False, base=gen.D0)
    days = [gen.D0 + rng.randrange(0, 60) for _ in range(rng.choice([1, 2, 4, 6]))]
    pairs = [rng.sample(o.comms, 2) for _ in range(rng.choice([1, 2, 3, 4]))]
    for _ in range(rng.choice([1, 2, 4, 8])):
        c, d = rng.choice(pairs)
        if rng.random() < 0.3:
            c, d = d, c
        items.append({"t": "price", "date": gen.day(rng.choice(days)), "c": c, "n": gen.fdec(gen.number(rng, True)), "o": d})
    if chain:
        # every commodity is linked only to the next
        items = [it for it in items if it["t"] != "price"]
        for c, d in zip(o.comms, o.comms[1:]):
            for day in rng.sample(range(80), rng.choice([1, 1, 2])):
                c, d = rng.choice([[c, d], [d, c]])
                items.append({"t": "price", "date": gen.day(gen.D0 + day), "c": c, "n": rng.choice(["2", "4", "0.5", "3", "1.1"]), "o": d})
        items.append({"t": "txn", "date": gen.day(gen.D0), "desc": "Start", "posts": [gen.post("Assets:Start", 64, o.comms[0]), gen.post("Assets:Away", -64, o.comms[0])]})
    rng.shuffle(items)
    txd = [gen.ordinal(it["date"]) for it in items if it["t"] in ("txn", "price")]
    r = rng.random()
    day = rng.choice(txd) + rng.choice([0, 0, -1, 1]) if r < 0.7 else gen.D0 + rng.randrange(-10, 900)
    sec = rng.choice([0, 86399, 43200, 1, 86398, rng.randrange(86400)])
    gen.style_up(rng, items)
    t = o.comms[-1] if chain and rng.random() < 0.7 else rng.choice(o.comms)
    return {"tree": gen.spread(rng, items, maxdepth=2), "target": t, "asked": rng.choice([t, t, t, t.lower(), t.upper()]),
            "day": gen.day(day), "sec": sec, "zone": rng.choice([["UTC0", 0], ["UTC0", 0], ["EST5", -5], ["JST-9", 9], ["AAA11", -11], ["BBB-13", 13], ["IST-5:30", 5.5]]), "pert": swarm(rng)}


def convert(bal, f, target):
    r = model.Bal()
    for c, x in bal.items():
        if c in f and c != target:
            r.add(target, x * f[c])
        else:
            r.add(c, x)
    return r


def tree_ok(rows, bals):
    """Do the lines show every account with money, each once or together with an only child of the same money?"""
    sums = {a: b for a, b in model.tree_sums(bals).items() if b}
    names = sorted(sums, key=model.path_key)
    i = 0
    for sp, n, m in rows:
        parts = n.split(":")
        for j, part in enumerate(parts):
            if i >= len(names):
                return False
            a = names[i].split(":")
            if a[-1] != part or len(a) != sp // 2 + j or sorted(sums[names[i]].lines()) != sorted(m):
                return False
            i += 1
    return i == len(names)


def check(s, ctx):
    files = gen.render(s["tree"])
    led = model.Ledger(gen.flatten(s["tree"]))
    target = led.comms.find(s["asked"])
    # that day and second on the clock on the wall
    clock = [(gen.ordinal(s["day"]) - 719163) * 86400 * 10**9 + s["sec"] * 10**9 - int(s["zone"][1] * 3600) * 10**9, 1000]
    env = dict(ENV, TZ=s["zone"][0])
    bals = led.balances()
    facts = {} if target is None else model.multipliers(led.prices, target, s["day"])
    used = sorted({c for b in bals.values() for c in b if c in facts})
    combos = list(itertools.islice(itertools.product(*[sorted(facts[c]) for c in used]), 200))
    if len(combos) == 200:
        ctx.probe("too many readings")
        return
    ctx.probe("chains of prices: %s" % ("none" if not used else "one reading" if len(combos) == 1 else "several readings"))
    for flat in (True, False):
        cmd = ["bal"] + (["--flat"] if flat else []) + ["-X", s["asked"], "-f", MAIN]
        r = ctx.run(world(cmd, files, s["pert"], clock=clock, env=env))
        what = "on %s (second %d, TZ=%s) dinero %s on %s" % (s["day"], s["sec"], s["zone"][0], " ".join(cmd), show(files))
        expect(r.ok, "refused", "%s gives %s" % (what, r.brief()))
        rows, tot = out.balance(r.out)
        first = None
        for fs in combos or [()]:
            f = dict(zip(used, fs))
            cb = {a: convert(b, f, target) for a, b in bals.items()}
            want = [(x, sorted(m)) for x, m in model.flat_lines(cb)]
            first = first or want
            if flat:
                ok = [(x, sorted(m)) for _, x, m in rows] == want
            else:
                ok = tree_ok(rows, cb)
            t = model.Bal()
            for b in cb.values():
                t = t.plus(b)
            if ok and (tot is None or sorted(tot) == sorted(t.lines() or ["0"])):
                break
        else:
            raise Violation("wrong conversion", "%s: shows %s total %s instead of %s (factors %s)"
                            % (what, rows, tot, first, {c: [str(x) for x in v] for c, v in facts.items()}))
