"""What is not understood is refused before anything is reported."""
import gen
from lib import *

COUNT = (9000, 250000)
RULE = ("A random journal and a command line with options, terms and an init file that is accepted; then the same with one mistake in it, on the command line or in the "
        "init file: an unknown command or option, an option without its value, with a value of the wrong kind, given twice, no journal, a bound that is no day, "
        "a term or expression that is malformed, missing after or before an operator, compares unlike things, or cannot be evaluated on a posting somewhere in the journal. The run has to end with a non-zero status, an explanation and no report line, "
        "on any day, in any zone, on any machine.")
KEEP = ("cmd", "bad")
BAL, REG = "balance", "register"
NODAY = ["2021-02-30", "2021-2-29", "2021/04/31", "2021-00-10", "2021-13-01", "2021-13", "2021-00", "2021-01-00", "2021-01-32", "2021/6/31", "2100-02-29", "x2021-01-05", "2021-01-05x",
         "20210105", "", "nonsense", "a2021-05", "everyday", "2021-1x", "b 2021-01-05", "2021-01-05 c", "2021-O1-05", "2O21", "2021-01-0S", "EUR", "2021.13.45", "-", "%Y-%m-%d", "ayer", "2021年"]
NODEPTH = ["-1", "1.5", "", "one", "0x2", "2 3", "99999999999999999999999", "2,", "1e3", "--real", "٢"]
UNKNOWN = ["--dept=2", "--depth2", "--Real", "--fl", "--nototal", "--no_total", "--begins=2021", "--rael", "--flat-", "--x", "-Z", "-q", "-r", "--exchange=EUR", "--sort", "--file-name=x", "--init", "--balance", "-D2",
           "--début", "--reel", "--no-balance-checks", "--beg=2021", "--realy"]
COMMANDS = ["", "balanc", "Balance", "blance", "regs", "print", "account", "stats", "ba", "checks", "BAL", "register ", "commodity", "-f"]
TERMS = ["(", "[", "*", "+", "A*(", "@(", "\\", "/[/", "/a(/", "x{2,1}", "a**(", "(?P<x", "[z-a]", "@[", "\\p{No}(", "(?z)"]
EXPRS = ["(", "(amount > 0", "amount >", "amount > ", "foo bar", "1 +", "account =~ /[/", "account =~", "any(", "abs(amount", "(amount > 0) junk", "(amount > 0) (payee)", "amount > 0 5", "(amount > 0)) and", "date >= to_date(2021", "amount 5", "*", "@payee", "account =~ /a(/", "no_such_function(1)",
         "(date > 5)", "(date > '2021')", "(account > 5)", "(payee < 'x')", "(amount > 'x')", "(note < 'x')", "(account =~ /a/ and date < 7)", "(any(date >= 2021))", "date <= amount", "(tag('x') >= 5)",
         "(date >= to_date('2021-02-30'))", "(date >= to_date('2021-O6-01'))", "(date == to_date(''))", "(amount > (4 / 0))", "((amount / 0) > 0)", "(abs(date) > 0)", "(1 / (2 - 2) == 3)"]
DANGLING = [["and"], ["or"], ["assets", "and"], ["assets", "or"], ["and", "assets"], ["or", "exp"], ["expr"], ["assets", "expr"], ["assets", "and", "expr"], ["assets", "and", "and", "exp"],
            ["assets", "and", "or", "exp"], ["expr", "and", "assets"], ["expr", "expr", "amount > 0"], ["assets", "or", "or", "@shop"], ["expr", "(amount > 0)", "or"], ["", "and", " "]]
NOTRUE = ["amount", "date", "(1 + 1)", "abs(amount)", "amount * 2", "to_date('2021-01-05')", "5"]    # yield no truth value
UNFIT = ["(amount > {other})", "(abs(amount) < {other})", "(account =~ /a/ or amount > {other})", "(amount >= {other} and account =~ /:/)"]
FLAGS = ["--real", "--no-balance-check"]


def make(rng, tier):
    o, items = gen.journal(rng, virtual=True)
    cmd = rng.choice([BAL, BAL, REG, REG, REG, "accounts", "payees", "commodities", "prices", "check"])
    words = []
    for w in (["--depth", "2"], ["--begin", "2021-01-05"], ["--end=2021-03"], ["--real"], ["--no-balance-check"]):
        if rng.random() < 0.25:
            words.append(w)
    if cmd == BAL:
        words += [[w] for w in ("--flat", "--no-total") if rng.random() < 0.3]
    terms = rng.choice([[], [], ["assets"], ["exp", "or", "@shop"]])
    kind = rng.choice(["bound", "bound", "depth", "unknown", "novalue", "twice", "nofile", "command", "rcunknown", "rcvalue", "rctext", "term", "expr", "expr", "unfit", "unfit", "dangling"])
    if kind in ("term", "expr", "unfit", "dangling") and cmd not in (BAL, REG):
        cmd = rng.choice([BAL, REG])
    bad = {"k": kind}
    if kind == "bound":
        bad.update(o=rng.choice(["--begin", "--end", "-b", "-e"]), v=rng.choice(NODAY))
    elif kind == "depth":
        bad.update(o=rng.choice(["--depth", "-d"]), v=rng.choice(NODEPTH))
    elif kind in ("unknown", "rcunknown"):
        bad["v"] = rng.choice([u for u in UNKNOWN if kind == "unknown" or u.startswith("--")])
    elif kind == "novalue":
        bad["o"] = rng.choice(["--depth", "-d", "--begin", "-b", "--end", "-e", "-X", "--init-file", "-f"])
    elif kind == "twice":
        bad["v"] = rng.choice([["--real", "--real"], ["--depth", "1", "-d", "2"], ["--begin=2021", "--begin=2021"], ["-e2021", "--end", "2022"], ["-X", "EUR", "-XEUR"], ["--no-balance-check", "--no-balance-check"]])
    elif kind == "command":
        bad["v"] = rng.choice(COMMANDS)
    elif kind == "rcvalue":
        bad["v"] = rng.choice(["--depth " + rng.choice(["-1", "1.5", "one", "0x2", "2 3"]), "--depth", "--begin", "--begin " + rng.choice([d for d in NODAY if d]), "--end=" + rng.choice([d for d in NODAY if d]),
                               "--depth=", "--end="] if cmd in (BAL, REG) else ["--depth one", "--begin 2021-02-30"])
    elif kind == "rctext":
        bad["v"] = rng.choice(["depth 2", "- depth", "-d 2", "real", "=", " --real", "\t--flat", "@include x", "2021-01-01 X"])
    elif kind == "term":
        bad["v"] = rng.choice(TERMS)
    elif kind == "dangling":
        bad["v"] = rng.choice(DANGLING)
    elif kind == "expr":
        bad["alone"] = rng.random() < 0.7
        bad["v"] = rng.choice(EXPRS + NOTRUE if bad["alone"] else EXPRS)
    else:
        c = rng.choice(o.comms)
        bad["v"] = rng.choice(UNFIT).replace("{other}", "1 " + (c if c.isalpha() else '"%s"' % c))
    s = {"cmd": cmd, "words": words, "terms": terms if cmd in (BAL, REG) else [], "bad": bad, "at": rng.random(), "tree": gen.spread(rng, items, multi=True), "rc": rng.choice([None, None, ["; nothing", ""], ["--force-color"]]),
         "clock": gen.D0 + rng.randrange(-4000, 9000), "zone": rng.choice(["UTC0", "JST-9", "XXX12", "EST5EDT,M3.2.0,M11.1.0"]), "pert": swarm(rng)}
    return s


def check(s, ctx):
    b, cmd = s["bad"], s["cmd"]
    files = gen.render(s["tree"])
    rc = list(s["rc"] or [])
    k = b["k"]
    if k == "bound":
        words = [w for w in s["words"] if w[0].split("=")[0] not in ("--begin", "--end")]
        twist = [[b["o"] + "=" + b["v"]] if b["o"].startswith("--") else [b["o"], b["v"]]]
    elif k == "depth":
        words = [w for w in s["words"] if w[0] != "--depth"]
        twist = [[b["o"] + "=" + b["v"]] if b["o"].startswith("--") else [b["o"], b["v"]]]
    else:
        words = s["words"]
        twist = {"unknown": lambda: [[b["v"]]], "twice": lambda: [b["v"]]}.get(k, lambda: [])()
    terms = s["terms"]
    if k in ("novalue", "nofile", "twice"):
        words = [w for w in words if k != "twice" or w[0].split("=")[0] not in ("--real", "--depth", "--begin", "--end", "--no-balance-check")]
    if k in ("rcvalue", "rcunknown"):
        words = [w for w in words if w[0].split("=")[0] != b["v"].split()[0].split("=")[0]]
    flat = lambda ws: [x for w in ws for x in w]
    f = ["-f", MAIN]
    good = [cmd] + f + flat(words) + terms
    bad = list(good)
    badrc = list(rc)
    if twist:
        i = int(s["at"] * (len(words) + 1))
        bad = [cmd] + f + flat(words[:i] + twist + words[i:]) + terms
    elif k == "novalue":
        bad = [cmd] + ([] if b["o"] == "-f" else f) + flat([w for w in words if w[0].split("=")[0] not in (b["o"], {"-d": "--depth", "-b": "--begin", "-e": "--end"}.get(b["o"]))]) + terms + [b["o"]]
    elif k == "nofile":
        bad = [cmd] + flat(words) + terms
    elif k == "command":
        bad = [b["v"]] + bad[1:]
    elif k in ("rcunknown", "rcvalue", "rctext"):
        badrc.insert(int(s["at"] * (len(rc) + 1)), b["v"])
    elif k == "term":
        bad = bad[:len(bad) - len(terms)] + (terms + [b["v"]] if s["at"] < 0.5 else [b["v"]])
        good = good[:len(good) - len(terms)]
    elif k == "dangling":
        bad = bad[:len(bad) - len(terms)] + b["v"]
    elif k == "expr":
        bad = bad[:len(bad) - len(terms)] + (["expr", b["v"]] if b["alone"] else ["assets", "and", "expr", b["v"]])
        good = good[:len(good) - len(terms)]
    kw = {"pert": s["pert"], "clock": [((s["clock"] - 719163) * 86400 + 41000) * 10**9, 1000]}
    env = dict(ENV, TZ=s["zone"])
    withrc = lambda rc: dict(files, **({"/home/u/.ledgerrc": "\n".join(rc) + "\n"} if rc else {}))
    r = ctx.run(world(good, withrc(rc), env=env, **kw))
    expect(not r.hung, "hung", r.brief())
    if not r.ok:
        ctx.probe("journal refused")    # then there is nothing to show
    if k in ("term", "expr", "unfit") and (not r.ok or not r.out):
        return ctx.probe("nothing to look at")
    if k == "unfit":
        return unfit(s, ctx, good[:len(good) - len(terms)], withrc(rc), env, kw)
    if k in ("term", "expr"):
        # A query is only looked at where there are postings
        q = ctx.run(world([REG] + good[1:], withrc(rc), env=env, **kw)) if cmd == BAL and not any(w[0] in ("--flat", "--no-total") for w in words) else r
        if not q.ok or not q.out:
            return ctx.probe("nothing to look at")
    q = ctx.run(world(bad, withrc(badrc), env=env, **kw))
    what = "dinero %s with the init file %r gives %s on %s" % (" ".join(map(repr, bad)), badrc, q.brief(), show(files))
    judge(q, what)
    ctx.probe("refused: " + k)


def judge(q, what):
    expect(not q.hung and not q.sig, "hung or killed", what)
    expect(not q.ok, "taken for understood", what)
    expect(not q.out, "report before the refusal", what)
    expect(q.err.strip(), "no explanation", what)


def unfit(s, ctx, args, files, env, kw):
    """A query that compares an amount with another commodity: the journal says where it fails."""
    r = ctx.run(world(args + ["expr", s["bad"]["v"]], files, env=env, **kw))
    what = "dinero %s gives %s on %s" % (" ".join(map(repr, args + ["expr", s["bad"]["v"]])), r.brief(), show(files))
    expect(not r.hung and not r.sig, "hung or killed", what)
    if r.ok:
        return ctx.probe("every posting fits")
    expect(not r.out, "report before the refusal", what)
    expect(r.err.strip(), "no explanation", what)
    ctx.probe("refused: unfit")
