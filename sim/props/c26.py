"""Only the arguments, the text of the files, the day and the zone count."""
import os
import gen
from lib import *
import props.c09 as c09

COUNT = (9000, 250000)
RULE = ("A random journal in a random tree of files, valid or with a small defect, and a random report with options, terms and an init file, run in "
        "a plain place and again elsewhere: the tree moved under another directory, another working and home directory, the file named "
        "relatively or absolutely, options in another order and spelling, other environment variables (also not UTF-8), user, host, process number, "
        "file times, inode numbers, owners, permissions, heap layout, name of the program, files lying around and, when neither conversion nor relative date is asked "
        "for, another day and time zone. Output and verdict have to be the same.")
KEEP = ("cmd",)
ROOTS = ["/srv", "/home/u/books 2021", "/data/[x]/a*b?", "/mnt/año/Geld;x", "/a/b/c/d/e/f/g/h", "/tmp", "/etc/dinero", "/w", "/w/w", "/-f", "/x.ledger", "/~", "/$HOME/#1", "/caf\udce9/x"]
CWDS = ["/", "/tmp", "/home/other", "/q"]
HOMES = ["/home/u", "/Users/A B", "/root", "/nonexistent/../home/z", "/w", "/home/\udce9"]
NAMES = ["LEDGER_FILE", "LEDGER", "LEDGER_INIT", "DINERO_FILE", "DINERO_INIT", "DINERO_OPTIONS", "LEDGER_ARGS", "FILE", "DEPTH", "QUERY", "REAL", "BEGIN", "END", "NOW", "LEDGER_NOW",
         "LEDGER_DEPTH", "LEDGER_REAL", "LEDGER_PRICE_DB", "LEDGER_BEGIN", "PRICE_DB", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "TMPDIR", "PWD", "OLDPWD", "USER", "LOGNAME", "HOSTNAME",
         "SHELL", "PATH", "EDITOR", "VISUAL", "PAGER", "LEDGER_PAGER", "LESS", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "SOURCE_DATE_EPOCH", "FAKETIME", "LANGUAGE", "POSIXLY_CORRECT",
         "SUDO_USER", "CI", "DEBUG", "VERBOSE", "IFS", "CDPATH", "MAIL", "SHLVL", "_", "COLUMNS", "LINES", "BLOCKSIZE", "TIME_STYLE", "DATEMSK", "Ünï"]
VALUES = ["", "1", "0", "3", "132", "2021", "true", "/w/decoy.ledger", "/home/u/decoy.ledger", "decoy.ledger", "--depth 1", "2021-01-10", "x", "assets", "\udcff\udcfe", "é", "/nonexistent", "more", "fr_FR.UTF-8", "full", "-"]
DECOY = "P 2021-01-01 EUR 77 USD\n2021-01-05 Decoy\n    Decoy:One  77.77 EUR\n    Decoy:Two\n"
LYING = ["decoy.ledger", ".ledger", ".dinero", ".dinerorc", ".config/dinero/config", ".config/ledger/ledgerrc", "ledgerrc", "_ledgerrc", ".pricedb", "prices.db", ".hledger.journal", "main.ledger~",
         "main.ledger.bak", ".main.ledger.swp", "-", "dinero.toml", ".env", "balance", "EUR", "assets"]
TERMS = [[], [], [], ["assets"], ["exp", "or", "inc"], ["@shop"], ["%trip"], ["a", "and", "e"], ["/^[AE]/"], ["expr", "(date >= to_date('2021-01-05'))"], ["expr", "not (account =~ /Assets/)"], ["note"]]


def make(rng, tier):
    o, items = gen.journal(rng, virtual=True, autos=rng.choice([0, 0, 1]))
    if rng.random() < 0.3:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    if rng.random() < 0.15:
        txns = [it for it in items if it["t"] == "txn"]
        c09.bend(rng, rng.choice(txns))
    cmd = rng.choice(["balance", "balance", "register", "register", "accounts", "payees", "commodities", "prices", "check"])
    opts = []
    if cmd == "balance":
        opts = [[x] for x in ("flat", "no-total") if rng.random() < 0.4]
    if cmd in ("balance", "register"):
        for n, vs in (("real", None), ("no-balance-check", None), ("depth", ["1", "2", "3"]), ("begin", ["2021-01-05", "2021/2", "2021"]), ("end", ["2021-01-20", "2021-03-01", "2022"])):
            if rng.random() < 0.25:
                opts.append([n] + ([rng.choice(vs)] if vs else []))
        if rng.random() < 0.3:
            opts.append(["X", rng.choice(o.comms)])
    s = {"cmd": cmd, "opts": opts, "terms": rng.choice(TERMS) if cmd in ("balance", "register") else [], "tree": gen.spread(rng, items, multi=True),
         "rc": rng.choice([None, None, ["--real"], ["--depth 2"], ["--no-balance-check", "; x"], ["--begin=2021-01-03"]]) if cmd in ("balance", "register") else None}
    s["rc"] = s["rc"] if s["rc"] and s["rc"][0].split()[0].split("=")[0][2:] not in [x[0] for x in opts] else None
    b = {"root": rng.choice(ROOTS) if rng.random() < 0.6 else "", "cwd": rng.choice(CWDS + ["root", "sub", "sub"]), "abs": rng.random() < 0.4, "home": rng.choice(HOMES) if rng.random() < 0.5 else "/home/u",
         "env": [[rng.choice(NAMES), rng.choice(VALUES)] for _ in range(rng.choice([0, 1, 3, 12, 40]))], "order": [rng.random() for _ in range(len(opts) + 1)],
         "form": [rng.randrange(3) for _ in range(len(opts) + 1)], "first": rng.random() < 0.5, "alias": rng.random() < 0.5, "ident": rng.choice([0, rng.getrandbits(31)]),
         "mode": rng.choice([0o644, 0o444, 0o600, 0o400, 0o777, 0o664]), "dmode": rng.choice([0o755, 0o555, 0o700, 0o777]),
         "lying": rng.sample(LYING, rng.choice([0, 0, 1, 4])), "argv0": rng.choice(["dinero", "dinero", "/usr/bin/dinero", "ledger", "./x y", "-"]),
         "clock": None if rng.random() < 0.5 else [gen.D0 + rng.randrange(-9000, 20000), rng.randrange(86400)], "zone": rng.choice(["UTC0", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "XXX12"])}
    s["b"] = b
    s["pert"], s["pert2"] = swarm(rng), swarm(rng)
    return s


SHORT = {"depth": "-d", "begin": "-b", "end": "-e", "file": "-f", "X": "-X"}


def spell(n, v, form):
    if v is None:
        return ["--" + n]
    if n == "X":
        return ["-X", v] if form != 1 else ["-X" + v]
    return [[SHORT[n], v], [SHORT[n] + v], ["--%s=%s" % (n, v)]][form] if form < 3 else ["--" + n, v]


def check(s, ctx):
    b = s["b"]
    files = gen.render(s["tree"])
    cmd = s["cmd"]
    rc = "\n".join(s["rc"]) + "\n" if s["rc"] else None
    plain = dict(files)
    if rc:
        plain["/home/u/.ledgerrc"] = rc
    named = "main.ledger" if cmd == "check" else MAIN
    args = [cmd, "-f", named]
    for x in s["opts"]:
        args += spell(x[0], x[1] if len(x) > 1 else None, 0)
    args += s["terms"]
    r = ctx.run(world(args, plain, s["pert"]))
    # the other place
    root = b["root"]
    if "\udce9" in root and b["cwd"] not in ("root", "sub"):
        root = root.replace("\udce9", "e")    # arguments are text, only places may be other bytes
    there = {root + p: t for p, t in files.items()}
    home = b["home"]
    hreal = os.path.normpath(home)
    main = root + MAIN
    cwd = {"root": root + "/w", "sub": root + "/w/some/where"}.get(b["cwd"], b["cwd"])
    if cmd == "check":
        cwd, name = root + "/w", "main.ledger"    # it says the name it was given
    elif b["abs"] and "\udce9" not in root:
        name = main
    else:
        name = os.path.relpath(main, cwd)
        name = "./" + name if name.startswith("-") else name
    if rc:
        there[hreal + "/.ledgerrc"] = rc
    around = {}
    for n in b["lying"]:
        for d in {hreal, cwd, "/etc"}:
            p = os.path.normpath(d + "/" + n)
            if not any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in there) and (not p.startswith(root + "/w/") or not any(c in p for c in ("ledger", "w1", "m1"))):
                around[p] = DECOY
    wild = any("*" in e["inc"] or "?" in e["inc"] for e in every(s["tree"]))
    if not (wild and (cwd + "/").startswith(root + "/w/")) and not (wild and (hreal + "/").startswith(root + "/w/")):
        there = dict(around, **there)
    alias = {"balance": "bal", "register": "reg", "commodities": "currencies"}
    o = sorted(range(len(s["opts"]) + 1), key=lambda i: b["order"][i])
    opts = []
    for i in o:
        n, v = ("file", name) if i == len(s["opts"]) else (s["opts"][i] + [None])[:2]
        opts += spell(n, v, b["form"][i])
    args2 = [alias.get(cmd, cmd) if b["alias"] else cmd] + (s["terms"] + opts if b["first"] else opts + s["terms"])
    env = {n: v for n, v in b["env"]}
    env.update(ENV, HOME=home)
    kw = {}
    relative = any(x[0] == "X" for x in s["opts"])
    if b["clock"] and not relative:
        kw["clock"] = [(b["clock"][0] - 719163) * 86400 * 10**9 + b["clock"][1] * 10**9, 1000]
        env["TZ"] = b["zone"]
    dirs = {"/home/u": 0o755, hreal: b["dmode"], cwd: 0o755, "/nonexistent": 0o755}
    w = world(args2, there, s["pert2"], cwd=cwd, env=env, dirs=dirs, modes={p: b["mode"] for p in there}, ident=b["ident"], argv0=b["argv0"], **kw)
    q = ctx.run(w)
    what = "dinero %s in /w gives %s, but dinero %s in %s with %s gives %s on %s" % (
        " ".join(args), r.brief(), " ".join(args2), cwd, {k: v for k, v in b.items() if k not in ("form", "order")}, q.brief(), show(files))
    expect(not r.hung and not q.hung, "hung", what)
    expect(alike(r, q), "depends on the place", what)
    ctx.probe("accepted" if r.ok else "refused")
    for k in ("root", "env", "ident", "lying"):
        if b[k]:
            ctx.probe("other " + k)
    if kw:
        ctx.probe("other day")


def every(f):
    for e in f["e"]:
        if "inc" in e:
            yield e
            for g in e["f"]:
                yield from every(g)
