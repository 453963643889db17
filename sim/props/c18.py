"""All commands agree on whether the books are valid."""
import os
import gen, model
from lib import *
import props.c09 as c09

COUNT = (6000, 160000)
RULE = ("A random journal, valid or with one defect (unbalanced or twice blank transaction, wrong assertion, unbalanced or blank "
        "virtual posting, missing include, include cycle, unknown directive, garbage line, bad date or amount, bad rule query, "
        "cut-off file, invalid UTF-8, a read or open error), run with every command and some options that do not change what "
        "is read, by absolute and relative path. Either all succeed or all fail; check has to say OK or KO about the path it "
        "was given, and a refused run prints nothing else on standard output and something on standard error. Where the "
        "reference model applies it decides which of the two it has to be.")
KEEP = ("args",)
CMDS = [["bal"], ["balance", "--flat"], ["reg"], ["register"], ["accounts"], ["payees"], ["commodities"], ["currencies"],
        ["prices"], ["check"]]
OPTS = [[], [], [], ["--force-color"], ["--depth", "1"], ["Expenses"], ["--real"], ["-b", "2021-01-02"], ["-e", "2020-01-01"],
        ["--strict"], ["@nobody"]]
BAD = ["2021-13-41 Nothing\n    A  1 EUR\n    B", "garbage here", "2021-01-01 Bad amount\n    A  1.2.3 EUR\n    B",
       "2021-01-01 No digits\n    A  EUR\n    B", "2021-01-01 Cost\n    A  @ 1 EUR\n    B", "include nowhere/at-all.ledger",
       "include main.ledger", "2021-01-01 Half (virtual\n    (A  1 EUR\n    B  1 EUR\n    C", "P 2021-01-01 EUR",
       "2021-01-01 X\n    12  1 EUR\n    B", "= expr \"(account =~ /x/\"\n    (A)  1 EUR", "= %\n    (A)  (amount +",
       "account A:B\n    nonsense x", "2021/02/30 Day\n    A  1 EUR\n    B", "commodity EUR\n    strange thing",
       "20210101 X\n    A  1 EUR\n    B", "2021-01-01 X\n    A  1 EUR @@\n    B", "2021-01-01 X\n    A  1 EUR =\n    B"]


def make(rng, tier):
    o, items = gen.journal(rng, autos=rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.3:
        items = gen.enrich(rng, o, items)
    txns = [it for it in items if it["t"] == "txn"]
    s = {"model": True, "cut": None, "flip": None, "fault": None, "pert": swarm(rng)}
    r = rng.random()
    if r < 0.25:
        pass
    elif r < 0.5:
        c09.bend(rng, rng.choice(txns))
    elif r < 0.6:
        real = [p for t in txns for p in t["posts"] if p["k"] == "R" and p.get("amt")]
        if real:
            rng.choice(real)["bal"] = [gen.fdec(gen.number(rng)), rng.choice(o.comms)]
    elif r < 0.65:
        rng.choice(txns)["posts"].append(gen.post("Virt:Blank", k=rng.choice("VB")))
    elif r < 0.82:
        s["model"] = False
        items.insert(rng.randint(0, len(items)), {"t": "raw", "text": rng.choice(BAD)})
    elif r < 0.88:
        s["model"], s["cut"] = False, rng.getrandbits(30)
    elif r < 0.92:
        s["model"], s["flip"] = False, rng.getrandbits(30)
    else:
        s["fault"] = [rng.choice([0, 5, 21, 116]), rng.getrandbits(30)]
    gen.style_up(rng, items)
    s["tree"] = gen.spread(rng, items, maxdepth=2)
    s["cmds"] = [[c, rng.choice(OPTS)] for c in rng.sample(CMDS, rng.choice([3, 4, 6, len(CMDS)]))]
    if not any(c[0] == ["check"] for c in s["cmds"]):
        s["cmds"].append([["check"], []])
    s["path"] = rng.choice([MAIN, MAIN, "main.ledger", "./main.ledger", "../w/main.ledger"])
    return s


def check(s, ctx):
    files = gen.render(s["tree"])
    names = sorted(files)
    if s["cut"] is not None:
        n = names[s["cut"] % len(names)]
        b = files[n].encode()
        files[n] = b[:s["cut"] // 64 % (len(b) + 1)].decode("utf-8", "ignore")
    if s["flip"] is not None:
        n = names[s["flip"] % len(names)]
        b = bytearray(files[n].encode())
        if b:
            b[s["flip"] // 64 % len(b)] = [0xff, 0x80, 0x3b, 0x28, 0x3d, 0x22, 0x30, 0x0a][s["flip"] % 8]
        files[n] = b.decode("utf-8", "surrogateescape")
    want = None
    if s["model"]:
        try:
            model.Ledger(gen.flatten(s["tree"]))
            want = True
        except model.Refused as e:
            want = False
    hit = None
    if s["fault"]:
        hit = names[s["fault"][1] % len(names)]
        want = False
    first = None
    for cmd, opts in s["cmds"]:
        args = cmd + opts + ["-f", s["path"]]
        w = world(args, files, s["pert"], cwd="/w")
        what = "dinero %s on %s" % (" ".join(args), show(files))
        if hit and s["fault"][0] == 0:
            w["modes"] = {hit: 0}
            what += " with %s unreadable" % hit
        elif hit:
            # the same file fails in every command
            ev = [e for e in ctx.run(w).events() if e[1] == "read" and os.path.normpath(os.path.join("/w", e[2])) == hit]
            if not ev:
                continue   # not reached in a journal that is refused anyway
            e = ev[s["fault"][1] // 64 % len(ev)]
            w["faults"] = [[e[0], 0, "E", s["fault"][0]]]
            what += " with error %d reading %s" % (s["fault"][0], hit)
        r = ctx.run(w)
        expect(not r.hung and r.sig == 0, "hung", "%s ends with %s" % (what, r.status))
        if want is not None:
            expect(r.ok == want, "wrong verdict", "%s: %s, but the run gives %s" % (what, "valid" if want else "not valid", r.brief()))
        if first is None:
            first = (r.ok, what)
        expect(r.ok == first[0], "commands disagree", "%s gives %s, but %s %s" % (what, r.brief(), first[1].split(" on ")[0],
                                                                                 "succeeds" if first[0] else "fails"))
        if not r.ok:
            expect(r.err.strip() != b"", "no explanation", "%s fails without a word: %s" % (what, r.brief()))
        text = out_text(r)
        if cmd == ["check"]:
            ok, ko = "Input file %s is OK\n" % s["path"], "Input file %s is KO\n" % s["path"]
            if r.ok:
                expect(text == ok, "check does not say OK", "%s: says %r" % (what, text))
            else:
                expect(text in ("", ko), "check does not say KO", "%s: says %r and fails" % (what, text))
        elif not r.ok:
            expect(text == "", "report of a refused run", "%s: fails after printing %r" % (what, text[:300]))
    if first is None:
        return
    ctx.probe("valid" if first[0] else "not valid")


def out_text(r):
    from out import ANSI
    return ANSI.sub("", r.out.decode("utf-8", "replace"))
