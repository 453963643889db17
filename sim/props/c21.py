"""One run sees one day, even when midnight passes while it works."""
import datetime
import gen
from lib import *

COUNT = (300, 12000)
RULE = ("A random journal with transactions, prices and rules around a day D and a report that depends on the day (relative "
        "dates in --begin, --end and value expressions, -X). The simulated clock passes midnight (local or UTC), or is set "
        "forward or back by seconds to a year, between two steps of the run, preferably around a reading of the clock. The output has to be "
        "the one of a run that keeps one of the days throughout.")
KEEP = ("args",)
WORDS = ["today", "yesterday", "tomorrow", "today", "tomorrow"]
ZONES = [("UTC0", 0), ("UTC0", 0), ("EST5", -5), ("JST-9", 9), ("IST-5:30", 5.5)]


def make(rng, tier):
    day = gen.ordinal(rng.choice(["2021-03-01", "2020-12-31", "2024-02-29", "2021-06-15", "2023-02-28"]))
    o, items = gen.journal(rng, base=day - 3, days=7, n=rng.choice([3, 5, 8]), autos=0, comms=rng.sample(gen.COMMS, 3), prices=0, tags=False)
    for _ in range(rng.choice([1, 3, 5])):
        c, d = rng.sample(o.comms, 2)
        items.append({"t": "price", "date": gen.day(day + rng.choice([-2, -1, 0, 0, 1, 1, 2])), "c": c, "n": gen.fdec(gen.number(rng, True)), "o": d})
    args = list(rng.choice([["reg"], ["bal"], ["bal", "--flat"]]))
    if rng.random() < 0.8:
        args += ["--begin", rng.choice(WORDS)]
    if rng.random() < 0.8:
        args += ["--end", rng.choice(WORDS)]
    if args[0] == "bal" and rng.random() < 0.4:
        args += ["-X", rng.choice(o.comms)]
    if rng.random() < 0.2:
        args += ["expr", "date %s to_date('%s')" % (rng.choice([">=", "<", ">", "<="]), rng.choice(WORDS))]
    elif rng.random() < 0.12:
        items.append({"t": "raw", "text": "= expr \"date %s to_date('%s')\"\n    (Auto:Seen)  1" % (rng.choice([">=", "<"]), rng.choice(WORDS))})
    rng.shuffle(items)
    z, off = rng.choice(ZONES)
    jump = rng.choice([1, 1, 1, 1, 3600, 86400, 3 * 86400, 366 * 86400, -1, -86400, -2 * 86400])
    return {"tree": gen.spread(rng, items, maxdepth=1), "args": args, "zone": z, "off": off, "utc": rng.random() < 0.3, "day": gen.day(day),
            "jump": jump, "at": [rng.random() for _ in range(3)], "pert": swarm(rng)}


def check(s, ctx):
    files = gen.render(s["tree"])
    args = s["args"] + ["-f", MAIN]
    env = dict(ENV, TZ=s["zone"])
    # the last instant of the day, by the machine's clock
    t = datetime.datetime.fromisoformat(s["day"]) + datetime.timedelta(days=1, milliseconds=-100)
    before = int(((t - datetime.datetime(1970, 1, 1)).total_seconds() - (0 if s["utc"] else s["off"] * 3600)) * 1000) * 10**6
    after = before + s["jump"] * 10**9
    kept = []
    for ns in (before, after):
        r = ctx.run(world(args, files, s["pert"], env=env, clock=[ns, 10]))
        expect(r.ok, "refused", "dinero %s on %s gives %s" % (" ".join(args), show(files), r.brief()))
        kept.append(r)
    if kept[0].out == kept[1].out:
        ctx.probe("the two days give the same report")
    # where the clock is looked at: what matters is on which side of a reading it changes
    ticks = [e.split(b" ")[0] for e in kept[0].events_raw.split(b"\n") if b" clock 0 " in e]
    ticks = [int(x) for x in ticks]
    if not ticks:
        ctx.probe("no reading of the clock")
        return
    ctx.probe("readings of the clock", len(ticks))
    for a in s["at"]:
        step = ticks[int(a * len(ticks))]
        r = ctx.run(world(args, files, s["pert"], env=env, clock=[before, 10], acts=[[step, "K", None, after]]))
        expect(any(alike(r, k) for k in kept), "two days in one run",
               "dinero %s with TZ=%s on %s, the clock going from %d to %d ns at step %d, gives %s; before the change it is %s, after it %s"
               % (" ".join(args), s["zone"], show(files), before, after, step, r.brief(), kept[0].brief(), kept[1].brief()))
