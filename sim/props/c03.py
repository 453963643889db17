"""Exit status zero means the whole report was delivered."""
import errno as E
import gen
from lib import *

COUNT = (6500, 200000)
RULE = ("A random journal and report; one fault-free run is traced, then up to 6 runs with a write error at a random write "
        "(once or lasting), and runs in which all writes are split or interrupted.")
KEEP = ("args",)
ASSUME = ["a closed standard output (EBADF) is left out: the Rust library treats it as /dev/null by design"]
ERRS = [E.ENOSPC, E.EIO, E.EPIPE, E.EFBIG, E.EDQUOT, E.EAGAIN, E.ECONNRESET]
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"],
        ["bal", "--no-total"], ["bal", "--flat", "--depth", "1"]]


def make(rng, tier):
    o, items = gen.journal(rng)
    args = rng.choice(CMDS)
    if rng.random() < 0.2 and len(o.comms) > 1:
        args = ["bal", "-X", o.comms[0]]
    s = {"args": args, "tree": gen.spread(rng, items, maxdepth=1), "pert": {"seed": rng.getrandbits(31)}, "w": []}
    if rng.random() < 0.3:
        s["pert"]["tty"] = [rng.choice([2, 6, 7]), rng.choice([80, 200]), 24]
    for _ in range(6):
        s["w"].append([rng.random(), rng.random(), rng.random(), rng.random()])
    return s


def check(s, ctx):
    files = gen.render(s["tree"])
    args = s["args"] + ["-f", MAIN]
    w0 = world(args, files, s["pert"])
    base = ctx.run(w0)
    if not base.ok:
        return
    for a, b, c, d in s["w"]:
        w = dict(w0)
        if a < 0.3:
            if b < 0.7:
                w["chunkw"] = [1 + int(c * 30), 1 + int(d * 9)]
            if b > 0.4:
                w["eintr"] = [0, 2 + int(c * 4)]
            r = ctx.run(w)
            expect(not r.hung, "hung", "with split writes dinero %s does not end" % " ".join(args))
            expect(same(base, r), "split writes", "with split or interrupted writes dinero %s gives %s instead of %s"
                   % (" ".join(args), r.brief(), base.brief()))
            continue
        if a < 0.6:
            # split writes too, so that an error can fall inside a line
            w["chunkw"] = [1 + int(c * 30), 1 + int(d * 9)]
        tr = ctx.run(w) if "chunkw" in w else base
        writes = [e for e in tr.events() if e[1] == "write1"]
        if not writes:
            ctx.probe("empty report")
            continue
        step = writes[int(b * len(writes))][0]
        en = ERRS[int(c * 7000) % len(ERRS)]
        w["faults"] = [[step, [0, 1][int(d * 2)], "E", en]]
        r = ctx.run(w)
        what = "%s on write %d of %d" % (E.errorcode[en], [x[0] for x in writes].index(step) + 1, len(writes))
        expect(not r.hung, "hung", "with %s dinero %s does not end" % (what, " ".join(args)))
        if r.out != base.out:
            ctx.probe("report cut")
        expect(base.out.startswith(r.out), "not a prefix", "with %s dinero %s delivers %r, no prefix of %r"
               % (what, " ".join(args), r.out.decode("utf-8", "replace")[:500], base.out.decode("utf-8", "replace")[:500]))
        expect(not r.ok, "write error swallowed", "with %s dinero %s exits 0 after delivering %d of %d bytes"
               % (what, " ".join(args), len(r.out), len(base.out)))
