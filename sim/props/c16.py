"""Terminal and locale change the looks, never the figures."""
import re
import gen
from lib import *
from out import ANSI

COUNT = (7000, 200000)
RULE = ("A random journal and command, run once plainly and then 4 times with random combinations of which streams are terminals, "
        "terminal sizes from 0 to 65535 columns (3000 for the register), colour, locale and terminal variables, --force-color and split writes; after "
        "removing colour codes and blanks every line has to be the same, and so has the exit status.")
KEEP = ("args",)
LOCALES = ["C", "POSIX", "C.UTF-8", "", "en_US.UTF-8", "en_GB", "de_DE.UTF-8", "de", "fr_FR.UTF-8", "es_ES.UTF-8", "pt_BR.UTF-8",
           "it_IT", "tr_TR.UTF-8", "ja_JP.eucJP", "zh_CN.GB18030", "ar_EG.UTF-8", "hi_IN", "ru_RU.KOI8-R", "sv_SE", "de_CH", "xx", "en_US.ISO-8859-1"]
VARS = {"NO_COLOR": ["1", "", "0"], "CLICOLOR": ["0", "1"], "CLICOLOR_FORCE": ["1", "0", ""],
        "TERM": ["dumb", "xterm-256color", "", "linux", "vt100", "screen", "unknown", "emacs"],
        "COLUMNS": ["20", "500", "x", "0", "80", "132"], "LINES": ["1"], "COLORTERM": ["truecolor", "24bit", ""], "COLORFGBG": ["0;15"],
        "PAGER": ["less", "cat"], "CI": ["true"], "TERM_PROGRAM": ["vscode", "iTerm.app"], "EDITOR": ["vi"], "FORCE_COLOR": ["1", "0"],
        "LESS": ["-R"], "INSIDE_EMACS": ["27.1,comint"], "GITHUB_ACTIONS": ["true"], "NO_UNICODE": ["1"], "WT_SESSION": ["1"], "TMUX": ["/tmp/x,1,0"],
        "STY": ["1"], "SSH_TTY": ["/dev/pts/1"], "DISPLAY": [":0"], "LS_COLORS": ["di=34"], "CHARSET": ["ISO-8859-1"], "POSIXLY_CORRECT": ["1"]}
for k in ("LANG", "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_MONETARY", "LC_CTYPE", "LC_MESSAGES", "LC_COLLATE", "LC_MEASUREMENT"):
    VARS[k] = LOCALES
VARS["LANGUAGE"] = ["es:de", "fr", "en"]
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["reg"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"],
        ["bal", "--depth", "1"], ["bal", "--no-total"]]


def make(rng, tier):
    o, items = gen.journal(rng, descs=rng.sample(gen.DESCS + ["A very long description that does not fit in its column",
                                                               "Größenwahn & Söhne Überlänge GmbH Zürich", "x" * 39, "日本語の説明"], 5))
    if rng.random() < 0.2:
        for it in items:
            if it["t"] == "txn":
                for p in it["posts"]:
                    if rng.random() < 0.3:
                        p["a"] = p["a"] + ":A rather long name of an account:Indeed"
    if rng.random() < 0.1:
        items.append({"t": "txn", "date": "2021-01-03", "desc": "Off", "posts": [gen.post("A", 1, "EUR"), gen.post("B", 2, "EUR")]})
    args = list(rng.choice(CMDS))
    if rng.random() < 0.2:
        args += ["-X", rng.choice(o.comms)] if args[0] == "bal" else ["exp"]
    s = {"args": args, "tree": gen.spread(rng, items, maxdepth=1), "seed": rng.getrandbits(31), "looks": []}
    for _ in range(4):
        env = {k: rng.choice(VARS[k]) for k in rng.sample(sorted(VARS), rng.choice([0, 1, 3, 6, 12]))}
        if rng.random() < 0.3:
            l = rng.choice(LOCALES)
            env.update({k: l for k in rng.sample(["LANG", "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_MONETARY"], rng.choice([1, 2, 5]))})
        w = rng.choice([0, 1, 10, 40, 79, 80, 81, 94, 95, 96, 97, 100, 120, 131, 200, 400, 1000, (3000 if o.n <= 20 else 1500) if args[0] == "reg" else 65535, rng.randint(1, 300)])
        s["looks"].append({"env": env, "tty": [rng.choice([0, 1, 2, 2, 3, 4, 6, 7]), w, rng.choice([0, 1, 24, 100])], "force": rng.random() < 0.25,
                           "chunkw": rng.choice([None, [1], [3, 7]]) if w <= 1000 else None})
    return s


def bare(raw):
    return [re.sub(r"\s", "", l) for l in ANSI.sub("", raw.decode()).split("\n")]


def check(s, ctx):
    files = gen.render(s["tree"])
    args = s["args"] + ["-f", MAIN]
    base = ctx.run(world(args, files, {"seed": s["seed"]}))
    want = bare(base.out)
    for l in s["looks"]:
        p = {"seed": s["seed"], "tty": l["tty"]}
        if l["chunkw"]:
            p["chunkw"] = l["chunkw"]
        env = dict(ENV)
        env.update(l["env"])
        r = ctx.run(world(args + (["--force-color"] if l["force"] else []), files, p, env=env))
        what = "dinero %s with %s on %s" % (" ".join(args), l, show(files))
        if r.flags & 2 and l["tty"][1] >= 200:
            ctx.probe("so wide that the report does not fit in the simulator")
            continue
        expect((r.code, r.sig) == (base.code, base.sig), "other status", "%s ends with %s instead of %s" % (what, r.brief(), base.brief()))
        got = bare(r.out)
        if got != want:
            d = [(a, b) for a, b in zip(got, want) if a != b] or [(got[len(want):], want[len(got):])]
            raise Violation("other figures", "%s: shows %r instead of %r" % (what, d[0][0], d[0][1]))
        if b"\x1b" in r.out:
            ctx.probe("coloured")
        if r.out != base.out:
            ctx.probe("laid out differently")
