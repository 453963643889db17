"""Splitting a journal over included files changes nothing."""
import gen
from lib import *

COUNT = (5200, 150000)
RULE = ("A random journal (declarations, aliases, prices, automated rules, sometimes a fault in the books) is put in a random "
        "tree of files with literal, wildcard and multi-level wildcard includes, files included twice, decoy files that no "
        "include names, files without final newline and different working directories; 2 or 3 commands are run on the tree "
        "under random listing order and read splitting and on the inlined single file; output and status have to be equal.")
KEEP = ("cmds", "spell")
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"], ["bal", "--depth", "1"],
        ["reg", "exp"], ["bal", "--no-balance-check"]]
SPELL = [("/w", "main.ledger"), ("/w", "./main.ledger"), ("/", "w/main.ledger"), ("/q/r", "../../w/main.ledger"),
         ("/w", "/w/main.ledger"), ("/q/r", "/q/../w/./main.ledger"), ("/w", "../w/main.ledger"), ("/w", "//w//main.ledger")]


def descend(f, out):
    out.append(f)
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                descend(g, out)
    return out


def has(f, path):
    return path in gen.paths(f)


def move(f, path):
    return dict(f, path=path)


def make(rng, tier):
    o, items = gen.journal(rng, n=gen.count(rng, [2, 4, 6, 10, 16]))
    if rng.random() < 0.5:
        items = gen.enrich(rng, o, items, ambiguous=True)
    gen.style_up(rng, items)
    if rng.random() < 0.15:
        bad = rng.choice([
            {"t": "txn", "date": "2021-01-03", "desc": "Off", "posts": [gen.post("A", 1, "EUR"), gen.post("B", 2, "EUR")]},
            {"t": "raw", "text": "nonsense"}, {"t": "raw", "text": "2021-02-30 No day\n    A  1 EUR\n    B"},
            {"t": "txn", "date": "2021-01-03", "desc": "Two", "posts": [gen.post("A"), gen.post("B")]}])
        items.insert(rng.randint(0, len(items)), bad)
    if rng.random() < 0.3:
        # an assertion that depends on all the rest
        items.insert(rng.randint(0, len(items)), {"t": "txn", "date": "2031-01-01", "desc": "Check", "posts": [
            gen.post("Assets:Bank", 0, "EUR", bal=["0", "EUR"]), gen.post("Assets:Cash", 0, "EUR")]})
    tree = gen.spread(rng, items, maxdepth=rng.choice([1, 2, 3, 3, 6]), multi=True)
    if rng.random() < 0.3:
        every = descend(tree, [])
        lits = [g for f in every for e in f["e"] if "inc" in e and not any(c in e["inc"] for c in "*?") for g in e["f"]]
        if lits:
            g = rng.choice(lits)
            below = set(gen.paths(g))
            for f in rng.sample(every, min(len(every), 2)):
                if f["path"] not in below:
                    rel = os.path.relpath(g["path"], f["path"].rsplit("/", 1)[0])
                    f["e"].insert(rng.randint(0, len(f["e"])), {"inc": rel.replace("[", "[[]"), "f": [g]})
    if rng.random() < 0.04:
        # one file below the other, many times over
        k = rng.choice([10, 17, 20, 33, 40, 70])
        f = tree
        for i in range(k):
            f = {"path": "/w/chain%d.ledger" % (k - i) if i < k - 1 else MAIN, "e": [{"inc": f["path"][3:], "f": [f]}]}
            if i == 0:
                tree = move(tree, "/w/bottom.ledger")
                f["e"] = [{"inc": "bottom.ledger", "f": [tree]}]
        tree = f
    fs = sorted(set(gen.paths(tree)))
    return {"tree": tree, "gap": rng.choice([0, 1, 1, 2]), "nofinal": [p for p in fs if rng.random() < 0.2],
            "cmds": rng.sample(CMDS, 3), "spell": rng.sample(SPELL, 2), "decoys": rng.random() < 0.5, "pert": swarm(rng)}


def decoys(tree, files):
    """Files no include names; reading any of them would show."""
    t = "2021-01-02 Decoy\n    Decoy:One  77 DECOY\n    Decoy:Two\n"
    out = {"/w/unused.ledger": t, "/w/sub/other.ledger": t, "/main.ledger": t, "/w/main.ledger~": t}
    for f in descend(tree, []):
        d = f["path"].rsplit("/", 1)[0]
        for e in f["e"]:
            if "inc" in e and "*" in e["inc"]:
                dd = os.path.normpath(d + "/" + e["inc"].rsplit("/", 1)[0])
                if "*" not in dd and "?" not in dd and "[" not in dd and e["inc"].rsplit("/", 1)[1] != "*":
                    out[dd + "/notes.txt"] = t
                    if e["inc"].endswith("*.ledger"):
                        out[dd + "/a.ledger.bak"] = t
                        out[dd + "/zz/deeper.ledger"] = t
    return {p: x for p, x in out.items() if p not in files}


def check(s, ctx):
    files = gen.render(s["tree"], gap=s["gap"])
    for p in s["nofinal"]:
        if p in files:
            files[p] = files[p].rstrip("\n")
    one = {MAIN: gen.text_of(gen.flatten(s["tree"]), s["gap"])}
    used = dict(files)
    if s["decoys"]:
        used.update(decoys(s["tree"], files))
    for cmd in s["cmds"]:
        base = ctx.run(world(cmd + ["-f", "main.ledger"], one, {"seed": s["pert"].get("seed", 1)}))
        ctx.probe("accepted" if base.ok else "refused")
        for cwd, name in s["spell"]:
            r = ctx.run(world(cmd + ["-f", name], used, s["pert"], cwd=cwd))
            expect(not r.hung, "hung", "dinero %s -f %s does not end" % (" ".join(cmd), name))
            if cmd == ["check"]:
                ok = r.ok == base.ok
            else:
                ok = r.ok == base.ok and r.out == base.out
            expect(ok, "split differs", "in %s dinero %s -f %s on %s gives %s; inlined it gives %s"
                   % (cwd, " ".join(cmd), name, show(used), r.brief(), base.brief()))
