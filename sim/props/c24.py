"""A journal that is being appended to is read up to one point of its growth."""
import itertools
import gen
from lib import *

COUNT = (6000, 150000)
RULE = ("A random tree of files, of which one or two grow at their end while the run goes on: another process appends transactions, directives "
        "or prices in one to four writes that end at arbitrary bytes (also inside a line or a character), at random steps, preferably between "
        "the reads of that file, which are split at random. The result has to be the one of an undisturbed run in which each "
        "growing file ends after one of those writes (or before the first).")
KEEP = ("args",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["prices"], ["commodities"], ["check"], ["reg", "exp"]]


def make(rng, tier):
    o, items = gen.journal(rng, n=rng.choice([1, 2, 4, 6]), autos=rng.choice([0, 0, 1]))
    gen.style_up(rng, items)
    if rng.random() < 0.06:
        items.insert(rng.randint(0, len(items)), gen.pad(rng))
    tree = gen.spread(rng, items, maxdepth=2)
    names = sorted(set(gen.paths(tree)))
    s = {"args": rng.choice(CMDS), "tree": tree, "pert": swarm(rng), "grow": [], "plans": []}
    s["pert"].pop("chunkw", None)
    if rng.random() < 0.7:
        s["pert"]["chunkr"] = rng.choice([[1], [5], [16], [64, 3], [rng.randint(1, 200)]])
    for p in rng.sample(names, min(len(names), rng.choice([1, 1, 2]))):
        add = [gen.txn(rng, o) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3 and len(o.comms) > 1:
            add.append(gen.price(rng, o))
        if rng.random() < 0.2:
            add += gen.directives(rng, o)
        rng.shuffle(add)
        s["grow"].append([p, add, sorted(rng.random() for _ in range(rng.choice([0, 1, 2, 3]))), rng.random() < 0.5])
    for _ in range(4):
        s["plans"].append([rng.random() for _ in range(8)])
    return s


def states(base, add, cuts, tidy):
    """The contents of a growing file, one after the other; cuts at the ends of entries or anywhere"""
    b = base.encode()
    parts = [("\n".join(gen.witem(it)) + "\n\n").encode() for it in add]
    new = b"".join(parts)
    ends = {len(new)}
    for c in cuts:
        ends.add(sum(map(len, parts[:int(c * len(parts))])) if tidy else int(c * len(new)))
    ends.discard(0)
    return [b] + [b + new[:e] for e in sorted(ends)]


def check(s, ctx):
    files = gen.render(s["tree"])
    grow = {p: states(files[p], add, cuts, tidy) for p, add, cuts, tidy in s["grow"] if p in files}
    if not grow:
        return
    args = s["args"] + ["-f", MAIN]
    clean = ctx.run(world(args, files, s["pert"]))
    cache = {}

    def still(k):
        if k not in cache:
            cache[k] = ctx.run(world(args, dict(files, **dict(k)), {"seed": 1}))
        return cache[k]

    for plan in s["plans"]:
        acts = []
        for n, (p, st) in enumerate(sorted(grow.items())):
            near = [e[0] for e in clean.events() if e[2].endswith(p.rsplit("/", 1)[1])] or [1]
            at = []
            for i in range(1, len(st)):
                a = plan[(n * 4 + i) % len(plan)]
                at.append(near[int(a / 0.8 * len(near))] + int(a * 1000) % 2 if a < 0.8 else 1 + int((a - 0.8) * 5 * clean.steps))
            for i, x in enumerate(sorted(at)):
                acts.append([x, "W", p, st[i + 1]])
        acts.sort(key=lambda x: x[0])
        r = ctx.run(world(args, files, s["pert"], acts=acts))
        what = "dinero %s with files %s and appends %s" % (" ".join(args), show(files), [(x, p, t[-80:]) for x, _, p, t in acts])
        expect(not r.hung and r.sig == 0, "hung", "%s ends with %s" % (what, r.status))
        had = {p: [st[0]] for p, st in grow.items()}
        for _, _, p, t in acts[:r.acts_fired]:
            had[p].append(t)
        # the newest contents first
        hit = None
        for c in itertools.product(*[had[p] for p in sorted(had)]):
            q = still(tuple(zip(sorted(had), c)))
            if alike(q, r):
                hit = q
                break
        expect(hit is not None, "no point of the growth", "%s gives %s, which no point of its growth gives" % (what, r.brief()))
        ctx.probe("appended text seen" if r.ok and r.out != clean.out else "as undisturbed" if alike(r, clean) else "refused like a point of its growth")
