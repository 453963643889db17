"""Same books, same command, same day: the same report."""
import gen
from lib import *

COUNT = (9000, 300000)
RULE = ("A random journal (several commodities, aliases, overlapping payee patterns, undeclared spellings, prices of the "
        "same day, automated transactions) in a random tree of files; one command run under 4 random combinations of hash "
        "keys, directory order, read and write chunking, interrupted calls and clock readings within the day.")
KEEP = ("args",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["bal", "--flat", "--depth", "1"], ["accounts"], ["payees"],
        ["commodities"], ["prices"], ["check"], ["bal", "--depth", "2"], ["reg", "--real"], ["bal", "a", "@o", "%t"],
        ["reg", "exp"]]


def make(rng, tier):
    o, items = gen.journal(rng, **({"comms": rng.sample(gen.COMMS, 4), "implied": True} if rng.random() < 0.5 else {}))
    if rng.random() < 0.7:
        items = gen.enrich(rng, o, items, ambiguous=True)
    gen.style_up(rng, items)
    args = rng.choice(CMDS)
    if rng.random() < 0.35:
        args = rng.choice([["bal", "--flat"], ["bal"]]) + ["-X", rng.choice(o.comms)]
        if len(o.comms) > 1:
            d = gen.day(gen.D0 + rng.randrange(40))
            for _ in range(rng.randint(1, 6)):
                p = gen.price(rng, o)
                if rng.random() < 0.6:
                    p["date"] = d
                items.append(p)
    perts = [swarm(rng) for _ in range(4)]
    for p in perts:
        p["clock"] = [NOON - 10**9 * rng.randrange(40000), rng.choice([1, 1000, 10**6])]
    return {"args": args, "tree": gen.spread(rng, items), "perts": perts}





def check(s, ctx):
    files = gen.render(s["tree"])
    base = None
    for p in s["perts"]:
        w = world(s["args"] + ["-f", MAIN], files, p)
        r = ctx.run(w)
        expect(not r.hung, "hung", "the run does not end")
        if base is None:
            base = r
            ctx.probe("accepted" if r.ok else "refused")
        else:
            expect(same(base, r), "differs", "dinero %s gives %s in one run and %s in another on %s"
                   % (" ".join(s["args"]), base.brief(), r.brief(), show(files)))
