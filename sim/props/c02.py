"""An input fault never turns into a wrong or partial report."""
import errno as E
import gen
from lib import *

COUNT = (5200, 150000)
RULE = ("A random journal in a random tree of files, optionally with init files; one fault-free run is traced, then up to 7 "
        "runs each with one fault placed on a random input operation of that trace (open, read, stat, directory listing, "
        "path resolution) with an error that operation can return, once or lasting, or a failing allocation, a damaged "
        "byte, a missing or unreadable file; status zero is accepted only with the fault-free output.")
KEEP = ("args",)
ASSUME = ["an error of a call whose result the program may do without (fstat for a size hint) is no fault of the input: the "
          "output then has to be the fault-free one"]
ERR = {
    "open": [E.ENOENT, E.EACCES, E.EIO, E.EMFILE, E.ENFILE, E.ELOOP, E.ENOMEM, E.ENXIO, E.ESTALE, E.EINTR],
    "read": [E.EIO, E.EIO, E.EISDIR, E.ENOMEM, E.EINTR, E.ESTALE, E.EAGAIN],
    "stat": [E.EACCES, E.EIO, E.ELOOP, E.ENOMEM, E.ESTALE],
    "fstat": [E.EIO, E.ENOMEM],
    "opendir": [E.EACCES, E.EIO, E.EMFILE, E.ENFILE, E.ENOMEM, E.ENOTDIR],
    "readdir": [E.EIO, E.EBADF, E.ESTALE],
    "realpath": [E.EACCES, E.EIO, E.ENOMEM, E.ELOOP],
    "lstat": [E.EACCES, E.EIO],
    "readlink": [E.EIO],
    "lseek": [E.EIO],
}
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"]]


def make(rng, tier):
    o, items = gen.journal(rng)
    tree = gen.spread(rng, items)
    s = {"args": rng.choice(CMDS), "tree": tree, "pert": swarm(rng), "init": {}, "faults": []}
    if rng.random() < 0.4:
        for p in rng.sample(["/home/u/.ledgerrc", "/w/.ledgerrc", "/w/my.rc"], rng.choice([1, 2])):
            s["init"][p] = rng.choice(["--real\n", "; note\n--no-balance-check\n", "\n# x\n--date-format %Y\n"])
        if "/w/my.rc" in s["init"]:
            s["args"] = s["args"] + ["--init-file", rng.choice(["my.rc", "/w/my.rc"])]
    for _ in range(7):
        s["faults"].append([rng.random(), rng.random(), rng.random(), rng.random()])
    return s


def input_events(r, w):
    ev = []
    for step, op, path, ret, err in r.events():
        if op in ERR:
            ev.append((step, op, path))
    return ev


def check(s, ctx):
    files = gen.render(s["tree"])
    literal = []
    def lits(f):
        for e in f["e"]:
            if "inc" in e:
                for g in e["f"]:
                    if not any(c in e["inc"] for c in "*?["):
                        literal.append(g["path"])
                    lits(g)
    lits(s["tree"])
    globbed = set(gen.paths(s["tree"])) - set(literal) - {MAIN}

    def under(path):
        """Is this one of the paths a wildcard is expanded through?"""
        n = os.path.normpath(os.path.join("/w", path))
        return n in globbed or any(g.startswith(n + "/") for g in globbed)

    allf = dict(files)
    allf.update(s["init"])
    args = s["args"] + ["-f", MAIN]
    w0 = world(args, allf, s["pert"])
    base = ctx.run(w0)
    if not base.ok:
        ctx.probe("journal refused without a fault")
        return
    ev = input_events(base, w0)
    if not ev:
        return

    def judge(r, what, cls, must_fail=False, prefix=False):
        expect(not r.hung, "hung", "with %s dinero %s does not end" % (what, " ".join(args)))
        if r.ok:
            ctx.probe("fault tolerated")
            if must_fail:
                raise Violation(cls, "with %s dinero %s still exits 0 and prints %r; files %s"
                                % (what, " ".join(args), r.out.decode("utf-8", "replace")[:500], show(files)))
            expect(r.out == base.out, cls, "with %s dinero %s exits 0 and prints %r instead of %r; files %s"
                   % (what, " ".join(args), r.out.decode("utf-8", "replace")[:500],
                      base.out.decode("utf-8", "replace")[:500], show(files)))
        else:
            ctx.probe("fault refused")
            o = r.out
            if "check" in args and b" is KO" in o:
                o = b""
            if prefix and base.out.startswith(o):
                o = b""
            expect(o == b"", "report printed before failing", "with %s dinero %s fails (%s) after printing %r"
                   % (what, " ".join(args), r.status, r.out.decode("utf-8", "replace")[:500]))

    for a, b, c, d in s["faults"]:
        w = dict(w0)
        kind = int(a * 100)
        if kind < 60:
            # bias towards the rarer operations
            ops = sorted({e[1] for e in ev})
            op = ops[int(b * len(ops))] if kind < 40 else None
            cand = [e for e in ev if op is None or e[1] == op]
            step, op, path = cand[int(c * len(cand))]
            errs = ERR[op]
            en = errs[int(d * len(errs))]
            w["faults"] = [[step, [0, 0, 1, 2][int(d * 4000) % 4], "E", en]]
            cls = "swallowed " + op + " error"
            r = ctx.run(w)
            if any(e[1] in ("stat", "lstat") and e[3] < 0 and e[4] == en and under(e[2]) for e in r.events()):
                cls = "stat error while a wildcard is expanded"
            judge(r, "%s on %s of %s (step %d)" % (E.errorcode[en], op, path, step), cls)
        elif kind < 70:
            cand = [e for e in ev if e[1] == "read"]
            if not cand:
                continue
            step, op, path = cand[int(c * len(cand))]
            w["faults"] = [[step, 0, "B", int(d * 1000)]]
            judge(ctx.run(w), "a damaged byte read from %s (step %d)" % (path, step), "damaged byte accepted")
        elif kind < 82:
            w["alloc"] = [1 + int(b * base.nalloc), int(c * 2)]
            judge(ctx.run(w), "allocation %d of %d failing" % (w["alloc"][0], base.nalloc), "allocation failure swallowed",
                  prefix=True)
        elif kind < 90 and literal:
            p = literal[int(b * len(literal))]
            f2 = dict(allf)
            del f2[p]
            w["files"] = f2
            how = int(c * 3)
            if how == 1:
                w["dirs"] = dict(w.get("dirs", {}), **{p: 0o755})
            elif how == 2:
                w["links"] = {p: "/w/nowhere"}
            judge(ctx.run(w), "included file %s %s" % (p, ["missing", "a directory", "a dangling link"][how]),
                  "missing include accepted", True)
        else:
            ps = sorted(files)
            p = ps[int(b * len(ps))]
            t = files[p]
            if c < 0.5:
                w["modes"] = {p: 0}
                judge(ctx.run(w), "unreadable file %s" % p, "unreadable file accepted", True)
            else:
                k = int(d * (len(t) + 1))
                f2 = dict(allf)
                f2[p] = t[:k] + "\udcff" + t[k:]
                w["files"] = f2
                judge(ctx.run(w), "a byte that is no text in %s" % p, "invalid text accepted", True)
