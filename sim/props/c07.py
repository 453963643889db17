"""One run uses one version of every file, under concurrent edits."""
import itertools
import gen
from lib import *

COUNT = (5000, 120000)
RULE = ("A random tree of files (literal, wildcard and repeated includes, an init file) of which up to four get other "
        "versions; up to 6 runs per scenario, each with another process replacing, removing, creating or renaming those "
        "files at random steps of the run (biased towards the steps that touch the file) while reads are split. The result "
        "has to be the one of a combination in which each inclusion has one of the contents its file had during the run, "
        "obtained by undisturbed runs on the inlined text, or a refusal where a file was gone or a combination is refused.")
KEEP = ("args",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["prices"], ["commodities"]]
RC = ["", "--real\n", "--depth 1\n", "; nothing\n\n", "--begin 2021-01-05\n"]


def make(rng, tier):
    o, items = gen.journal(rng, n=rng.choice([2, 3, 4, 6]), autos=0, comments=False)
    tree = gen.spread(rng, items, maxdepth=2)
    every = {}

    def walk(f, lit):
        every.setdefault(f["path"], [f, lit])
        for e in f["e"]:
            if "inc" in e:
                for g in e["f"]:
                    walk(g, not any(c in e["inc"] for c in "*?["))
    walk(tree, True)
    if rng.random() < 0.3:
        lits = [f for f, lit in every.values() if lit and f is not tree and not any("inc" in e for e in f["e"])]
        if lits:
            g = rng.choice(lits)
            tree["e"].append({"inc": os.path.relpath(g["path"], "/w").replace("[", "[[]"), "f": [g]})
    for p in rng.sample(sorted(every), min(len(every), rng.choice([1, 1, 2, 3]))):
        f, lit = every[p]
        f["alts"] = []
        for _ in range(rng.choice([1, 1, 2])):
            keep = [e for e in f["e"] if "inc" in e and rng.random() < 0.8]
            new = [gen.txn(rng, o) for _ in range(rng.choice([0, 1, 2, 3]))]
            alt = keep + new
            if rng.random() < 0.6:
                alt = [e for e in f["e"] if "inc" not in e and rng.random() < 0.7] + alt
            rng.shuffle(alt)
            if rng.random() < 0.05:
                alt.append({"t": "raw", "text": "broken line"})
            f["alts"].append(alt)
        if rng.random() < 0.08:
            # long versions take several reads
            for v in [f["e"]] + f["alts"]:
                v.insert(0, gen.pad(rng))
    # a file that is not there at first may appear in a directory named by a wildcard
    for f, _ in every.values():
        for e in f["e"]:
            if "inc" in e and e["inc"].endswith("*.ledger") and rng.random() < 0.5:
                d = e["f"][0]["path"].rsplit("/", 1)[0]
                e["new"] = {"path": d + "/" + rng.choice(["0new.ledger", "zznew.ledger", "dnew.ledger"]),
                            "e": [gen.txn(rng, o)]}
    s = {"args": rng.choice(CMDS), "tree": tree, "pert": swarm(rng), "rc": None, "plans": []}
    s["pert"].pop("chunkw", None)
    if rng.random() < 0.25:
        s["rc"] = rng.sample(RC, 2)
    for _ in range(6):
        s["plans"].append([[rng.random(), rng.random(), rng.random(), rng.random()] for _ in range(rng.choice([1, 1, 2, 3]))])
    return s


LIMIT = 48


def variants(f, had):
    """Every text an inclusion of f can stand for; had: {path: [versions it had]}"""
    out = []
    for v in had[f["path"]]:
        if v is None:
            continue
        parts = []
        for e in v:
            if "inc" not in e:
                parts.append(["\n".join(gen.witem(e)) + "\n\n"])
                continue
            wild = any(c in e["inc"] for c in "*?[")
            gs = list(e["f"])
            if e.get("new"):
                gs.append(e["new"])
            gs.sort(key=lambda g: g["path"].encode())
            for g in gs:
                vs = variants(g, had)
                if wild and None in had[g["path"]]:
                    vs = vs + [""]
                parts.append(vs or [""])
        n = 1
        for p in parts:
            n *= len(p)
        if n > LIMIT:
            raise OverflowError
        out += ["".join(c) for c in itertools.product(*parts)]
        if len(out) > LIMIT:
            raise OverflowError
    return list(dict.fromkeys(out))


def text(f, v):
    out = []
    for e in v:
        if "inc" in e:
            out += ["include " + e["inc"], ""]
        else:
            out += gen.witem(e) + [""]
    return "\n".join(out) + "\n"


def check(s, ctx):
    all_files, newf = {}, []

    def walk(f):
        if f["path"] in all_files:
            return
        all_files[f["path"]] = f
        for v in [f["e"]] + f.get("alts", []):
            for e in v:
                if "inc" in e:
                    for g in e["f"]:
                        walk(g)
                    if e.get("new"):
                        walk(e["new"])
                        newf.append(e["new"]["path"])
    walk(s["tree"])
    files = {p: text(f, f["e"]) for p, f in all_files.items() if p not in newf}
    rcp = "/home/u/.ledgerrc"
    if s["rc"]:
        files[rcp] = s["rc"][0]
    targets = sorted(p for p, f in all_files.items() if f.get("alts") or p in newf)
    if s["rc"]:
        targets.append(rcp)
    if not targets:
        return
    args = s["args"] + ["-f", MAIN]
    clean = ctx.run(world(args, files, s["pert"]))
    cache = {}

    def undisturbed(t, rc):
        k = (t, rc)
        if k not in cache:
            fs = {MAIN: t}
            if rc is not None:
                fs[rcp] = rc
            cache[k] = ctx.run(world(args, fs, {"seed": 1}))
        return cache[k]

    for plan in s["plans"]:
        acts = []
        for a, b, c, d in plan:
            p = targets[int(a * len(targets))]
            near = [e[0] for e in clean.events() if e[2].endswith(p.rsplit("/", 1)[1])]
            if near and b < 0.35:
                step = max(1, near[0] - int(d * 4))   # just before it is first touched
            elif near and b < 0.7:
                step = near[int(b / 0.7 * len(near))] + int(d * 3)
            else:
                step = 1 + int(b * clean.steps)
            if p in newf:
                acts.append([step, "C", p, 0])
                if c < 0.3:
                    acts.append([step + 1 + int(d * 20), "U", p, None])
                continue
            nalt = 1 if p == rcp else len(all_files[p]["alts"])
            k = 1 + int(d * nalt)
            if c < 0.7:
                acts.append([step, "R", p, k])
            elif c < 0.8:
                acts.append([step, "U", p, None])
            elif c < 0.9:
                acts.append([step, "U", p, None])
                acts.append([step + 1 + int(d * 6), "C", p, k])
            else:
                acts.append([step, "R", p, k])
                acts.append([step + 1 + int(b * 6), "R", p, 0])
        acts.sort(key=lambda x: x[0])

        def content(p, k):
            if p == rcp:
                return s["rc"][k]
            f = all_files[p]
            return text(f, f["e"] if k == 0 else f["alts"][k - 1])

        wacts = [[st, kd, p] + ([content(p, k)] if k is not None else []) for st, kd, p, k in acts]
        r = ctx.run(world(args, files, s["pert"], acts=wacts))
        what = "dinero %s with files %s and changes %s" % (" ".join(args), show(files), json.dumps(wacts, ensure_ascii=False)[:1500])
        expect(not r.hung and r.sig == 0, "hung", "%s ends with %s" % (what, r.status))
        had = {p: ([None] if p in newf else [f["e"]]) for p, f in all_files.items()}
        rcs = [s["rc"][0]] if s["rc"] else [None]
        gone = False
        for st, kd, p, k in acts[:r.acts_fired]:
            gone |= kd == "U"
            if p == rcp:
                rcs.append(None if k is None else s["rc"][k])
                continue
            f = all_files[p]
            had[p].append(None if k is None else f["e"] if k == 0 else f["alts"][k - 1])
        if not r.ok and gone:
            ctx.probe("refused, a file was gone")
            expect(r.out == b"", "report of a refused run", "%s: refused after printing %r" % (what, r.out[:300]))
            continue
        try:
            texts = variants(s["tree"], had)
        except OverflowError:
            ctx.probe("too many combinations")
            continue
        seen, refused = [], False
        hit = False
        # try the texts most likely to match first: initial, then the others
        for rc in dict.fromkeys(rcs):
            for t in texts:
                q = undisturbed(t, rc)
                if (q.ok, q.out) == (r.ok, r.out) or (not q.ok and not r.ok):
                    hit = True
                    break
                seen.append(q)
            if hit:
                break
        expect(hit, "mixed versions", "%s gives %s, which is no combination of the versions of its files (%d combinations, e.g. %s)"
               % (what, r.brief(), len(seen), seen[0].brief() if seen else "-"))
        ctx.probe("new contents seen" if r.ok and r.out != clean.out else "as undisturbed" if r.ok else "refused like a combination")
