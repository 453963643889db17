"""Init file: the first one found counts, the command line wins."""
import errno as E
import gen
from lib import *

COUNT = (14000, 400000)
RULE = ("A random journal and random options spread over the command line (long, short, = and attached forms) and up to three "
        "init files with comments and blank lines, some missing, in a random working directory with decoys elsewhere; the run "
        "has to equal the run without init files whose command line carries the merged options. Some scenarios make the init "
        "file that counts malformed, a directory, unreadable, not text or fail with an I/O error: the run has to be refused.")
KEEP = ("cmd",)
OTHER = "/w/other.ledger"
ODD = ["/w/my books #2/other.ledger", "/w/a;b.ledger", "/w/a=b.ledger", "/w/--real", "/w/50% # off ; x.ledger", "/w/it's \"q\".ledger", "/w/$HOME ~.ledger", "/w/x.rc",
       "/w/Niño é.ledger", "/w/two  blanks.ledger", "/w/--file=x y.ledger"]
OPTS = {"file": [MAIN, OTHER], "depth": ["1", "2", "3"], "begin": ["2021-01-04", "2021-01-10", "2021/2/1"],
        "end": ["2021-01-06", "2021-01-20", "2021-3"], "real": [None], "no-balance-check": [None], "flat": [None], "no-total": [None],
        "date-format": ["%Y", "%d/%m/%Y", "%d %m %Y", "on  %d=%m"], "period": ["monthly"], "force-color": [None], "strict": [None]}
SHORT = {"file": "-f", "depth": "-d", "begin": "-b", "end": "-e", "period": "-p"}
PATHS = ["named", "/home/u/.ledgerrc", "cwd"]


def make(rng, tier):
    o, items = gen.journal(rng, n=rng.choice([3, 5, 8]), virtual=True, days=rng.choice([10, 30]), autos=0, comments=False)
    o2, items2 = gen.journal(rng, n=2, autos=0, comments=False)
    if rng.random() < 0.3:
        # only valid when assertions are ignored
        items.append({"t": "txn", "date": "2021-01-03", "desc": "Assert", "posts": [
            gen.post("Assets:X", 1, "EUR", bal=["2", "EUR"]), gen.post("Assets:Y", -1, "EUR")]})
    cmd = rng.choice(["bal", "bal", "bal", "reg", "reg", "accounts", "prices"])
    names = [n for n in OPTS if cmd == "bal" or n not in ("flat", "no-total")]
    s = {"cmd": cmd, "main": gen.text_of(items), "other": gen.text_of(items2), "pert": swarm(rng), "cwd": rng.choice(["/w", "/q", "/home/u"]),
         "cl": [], "rc": [None, None, None], "query": rng.choice([[], [], ["exp"], ["a", "and", "b"]]), "hurt": None, "named": None}
    for n in names:
        if rng.random() < (0.5 if n == "file" else 0.25):
            s["cl"].append([n, rng.choice(OPTS[n]) if n != "file" or rng.random() < 0.85 else rng.choice(ODD), rng.randrange(4)])
    rng.shuffle(s["cl"])
    if rng.random() < 0.2:
        # patterns after "--", which may look like options
        s["query"] = rng.sample(["exp", "a", "--real", "-x", "--depth=1", "--init-file", "--flat", "-f"], rng.choice([1, 2]))
        s["dash"] = 1
    for i in range(3):
        if rng.random() < 0.45:
            rc = []
            for n in names:
                if rng.random() < (0.6 if n == "file" else 0.25):
                    odd = n == "file" and rng.random() < 0.15
                    rc.append(["opt", n, rng.choice(ODD if odd else OPTS[n]), rng.randrange(5)])
            for _ in range(rng.choice([0, 1, 3])):
                rc.append(["text", rng.choice(["; comment", "# --real", "! x", "% --depth 1", "", "   ", "  ; indented", "\t# x", ";--flat"])])
            rng.shuffle(rc)
            s["rc"][i] = [rc, rng.choice(["\n", "\n", "\r\n"]), rng.random() < 0.8]
    if s["rc"][0] is not None or rng.random() < 0.15:
        s["named"] = [rng.choice(["my.rc", "/w/my.rc", "../w/my.rc"] if s["cwd"] == "/w" else ["/w/my.rc", "//w/./my.rc"]), rng.randrange(2)]
    if rng.random() < 0.2:
        s["hurt"] = [rng.choice(["line", "dash", "mode", "dir", "bytes", "unknown", "value", "fault", "fault", "loop"]), rng.random(), rng.random()]
    return s


def cl_tokens(n, v, form):
    if v is None:
        return ["--" + n]
    if n in SHORT and form == 0:
        return [SHORT[n], v]
    if n in SHORT and form == 1:
        return [SHORT[n] + v]
    if form == 2:
        return ["--%s=%s" % (n, v)]
    return ["--" + n, v]


def rc_text(rc):
    out = []
    for e in rc[0]:
        if e[0] == "text":
            out.append(e[1])
        else:
            n, v, form = e[1:]
            out.append("--" + n if v is None else "--%s%s%s" % (n, ["=", " ", "   ", "\t", " \t "][form], v))
    return rc[1].join(out) + (rc[1] if rc[2] else "")


def check(s, ctx):
    files = {MAIN: s["main"], OTHER: s["other"]}
    for p in ODD:
        files[p] = s["other"]
    base = dict(files)
    cwd = s["cwd"]
    order = []
    if s["named"]:
        order.append("/w/my.rc")
    order += ["/home/u/.ledgerrc", cwd + "/.ledgerrc"]
    content = {"/w/my.rc": s["rc"][0], "/home/u/.ledgerrc": s["rc"][1]}
    if cwd != "/home/u":
        content[cwd + "/.ledgerrc"] = s["rc"][2]
    for p, rc in content.items():
        if rc is not None:
            files[p] = rc_text(rc)
    # never to be used
    for d in ("/.ledgerrc", "/home/.ledgerrc", "/w/.ledgerrc", "/q/.ledgerrc", "/w/.dinerorc", "/home/u/.dinerorc"):
        if d not in content and d.rsplit("/", 1)[0] != cwd:
            files[d] = "--depth 1\n--no-such-option\n"
    counts = next((p for p in order if content.get(p) is not None), None)
    args = [s["cmd"]] + (s["query"] if not s.get("dash") else [])
    for o in s["cl"]:
        args += cl_tokens(*o)
    merged = list(args)
    have = {o[0] for o in s["cl"]}
    if counts:
        for e in content[counts][0]:
            if e[0] == "opt" and e[1] not in have:
                merged += ["--" + e[1]] + ([] if e[2] is None else [e[2]])
    if s["named"]:
        args += ["--init-file", s["named"][0]] if s["named"][1] else ["--init-file=" + s["named"][0]]
    if s.get("dash"):
        args += ["--"] + s["query"]
        merged += ["--"] + s["query"]
    w = world(args, files, s["pert"], cwd=cwd, dirs={"/q": 0o755, "/home/u": 0o755})
    what = "in %s dinero %s with files %s" % (cwd, " ".join(args), show({p: t for p, t in files.items() if p not in base}))
    if s["hurt"] and counts:
        how, a, b = s["hurt"]
        t = files[counts]
        ls = t.split("\n")
        k = int(a * (len(ls) + 1))
        if how == "fault":
            tr = ctx.run(w)
            ev = [e for e in tr.events() if e[1] in ("stat", "open", "read", "fstat")
                  and os.path.normpath(os.path.join(cwd, e[2])) == counts and e[1] != "fstat"]
            if not ev:
                return
            e = ev[int(a * len(ev))]
            en = [E.EIO, E.EACCES, E.ENOMEM, E.ESTALE][int(b * 4)]
            w["faults"] = [[e[0], 0, "E", en]]
            how = "%s on %s of the init file" % (E.errorcode[en], e[1])
        elif how == "mode":
            w["modes"] = {counts: 0}
        elif how == "loop":
            w["files"] = {p: x for p, x in files.items() if p != counts}
            w["links"] = {counts: counts}
        elif how == "dir":
            w["files"] = {p: x for p, x in files.items() if p != counts}
            w["dirs"] = dict(w["dirs"], **{counts: 0o755})
        elif how == "bytes":
            c = t.encode()
            k = int(a * (len(c) + 1))
            w["files"] = dict(files, **{counts: c[:k] + b"\xff" + c[k:]})
        else:
            ins = {"line": ["real", "file /w/main.ledger", "this is bad", "=x", "account X"], "dash": ["-f /w/main.ledger", "- x", "-d 1", "-X EUR"],
                   "unknown": ["--no-such-option", "--colour=red", "--Real"], "value": ["--begin 2021-99", "--end never", "--depth many"]}[how]
            l = ins[int(b * len(ins))]
            if how == "value" and l.split()[0].lstrip("-").split("=")[0] in {o[0] for o in s["cl"]} | {e[1] for e in content[counts][0] if e[0] == "opt"}:
                return
            ls.insert(min(k, len(ls) - 1), l)
            w["files"] = dict(files, **{counts: "\n".join(ls)})
        r = ctx.run(w)
        if s["hurt"][0] == "fault" and alike(r, tr):
            ctx.probe("fault without effect on the result")
            return
        expect(not r.ok, "bad init file accepted", "%s, where the init file %s has the defect %s: exits 0 and prints %r; it is %r"
               % (what, counts, how, r.out.decode("utf-8", "replace")[:300], w["files"].get(counts)))
        expect(not r.hung, "hung", "%s with the defect %s does not end" % (what, how))
        ctx.probe("bad init file: " + s["hurt"][0])
        return
    r = ctx.run(w)
    q = ctx.run(world(merged, base, {"seed": 1}, cwd=cwd, dirs={"/q": 0o755, "/home/u": 0o755}))
    expect(not r.hung, "hung", "%s does not end" % what)
    expect(alike(r, q), "other options", "%s gives %s; the options that count, dinero %s, give %s"
           % (what, r.brief(), " ".join(merged), q.brief()))
    ctx.probe("counts: %s, %s" % ({None: "none", "/w/my.rc": "named", "/home/u/.ledgerrc": "home"}.get(counts, "working directory"),
                                 "accepted" if r.ok else "refused"))
