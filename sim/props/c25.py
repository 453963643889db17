"""Line ends, trailing blanks and empty lines never change the meaning."""
import random
import gen
from lib import *

COUNT = (9000, 400000)
RULE = ("A random tree of files, with declarations, prices, automated rules and sometimes a defect, and an init file are saved by simulated programs with habits of "
        "their own: Windows line ends on all or some lines, blanks or tabs at the end of lines, other indentation, empty, blank "
        "and comment lines between the entries, no final newline. 2 commands are run on both versions, the second under random "
        "read splitting, listing order, interrupted reads and hash keys; report and status have to be equal.")
ASSUME = ["blank lines inside an entry are not claimed to be free"]
KEEP = ("cmds",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"], ["bal", "-X", "EUR"], ["reg", "@Gro"],
        ["reg", "%trip"], ["bal", "Exp"], ["reg", "--begin", "2021-01-05"], ["bal", "--real"],
        ["reg", "expr", "tag('Ref') == 'A12' or tag('who') == 'B2'"], ["reg", "expr", "tag('Project') =~ /again$/"], ["reg", "expr", "note =~ /(Bob|q1|xyz)$/"]]
BAD = ["2021-01-03 Off\n    A  1 EUR\n    B  2 EUR", "nonsense", "2021-02-30 No day\n    A  1 EUR\n    B", "2021-01-03 Two\n    A\n    B", "account X\n    nonsense 1"]
REMARKS = ["; remark", "# remark", "% remark", "* remark", "! remark", ";", "; 2021-01-01 X"]


def make(rng, tier):
    o, items = gen.journal(rng, autos=rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.6:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    if rng.random() < 0.08:
        items.insert(rng.randint(0, len(items)), {"t": "raw", "text": rng.choice(BAD)})
    return {"tree": gen.spread(rng, items, maxdepth=rng.choice([0, 1, 2]), multi=True), "gap": rng.choice([0, 1, 1]), "cmds": rng.sample(CMDS, 2),
            "pert": swarm(rng), "rc": rng.choice([None, None, "--real\n", "--begin 2021-01-04\n; x\n--no-balance-check\n", "# x\n\n--depth 2\n"]),
            "lay": {"seed": rng.getrandbits(31), "crlf": rng.choice([0, 1, 1, 0.5, 0.1]), "trail": rng.choice([0, 0, 0.3, 1]), "indent": rng.choice([0, 0, 0.5, 1]),
                    "empty": rng.choice([0, 0, 0.2, 0.6]), "nofinal": rng.choice([0, 0, 1])}}


def save(text, lay, rng):
    """The text as another program would have saved it."""
    out = []
    for l in text.split("\n")[:-1]:
        if l and not l[0].isspace():
            while rng.random() < lay["empty"] * 0.7:
                out.append(rng.choice(["", "", "   ", "\t", " \t "] + REMARKS))
        if l[:1].isspace() and l.strip() and rng.random() < lay["indent"]:
            l = rng.choice(["\t", " ", "  ", "    ", "        ", "\t\t", " \t"]) + l.lstrip()
        if l.strip() and rng.random() < lay["trail"]:
            l += rng.choice([" ", "  ", "   "] if l[0] in "cP" else [" ", "  ", "\t", " \t", "      "])
        out.append(l)
    if not out:
        return text
    out = [l + ("\r\n" if rng.random() < lay["crlf"] else "\n") for l in out]
    if lay["nofinal"]:
        out[-1] = out[-1].rstrip("\r\n") + rng.choice(["", "", "\r"] if lay["crlf"] else [""])
    return "".join(out)


def check(s, ctx):
    files = gen.render(s["tree"], gap=s["gap"])
    lay = s["lay"]
    if s["rc"]:
        files["/home/u/.ledgerrc"] = s["rc"]
    odd = {}
    for p in sorted(files):
        rng = random.Random("%s:%s" % (lay.get("seed", 1), p))
        if p.endswith("rc"):
            odd[p] = "".join(l + ("\r\n" if rng.random() < lay["crlf"] else "\n") for l in files[p].split("\n")[:-1])
        else:
            odd[p] = save(files[p], lay, rng)
    for cmd in s["cmds"]:
        a = ctx.run(world(cmd + ["-f", MAIN], files, {"seed": s["pert"].get("seed", 1)}))
        b = ctx.run(world(cmd + ["-f", MAIN], odd, s["pert"]))
        ctx.probe("accepted" if a.ok else "refused")
        expect(alike(a, b), "layout counts", "dinero %s gives %s on %s and %s on %s" % (" ".join(cmd), a.brief(), show(files), b.brief(), show(odd)))
