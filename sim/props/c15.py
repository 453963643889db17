"""Listings are complete, sorted and use canonical names."""
import re
import gen, model, out
from lib import *

COUNT = (7000, 200000)
RULE = ("A random journal whose accounts, payees and commodities are declared (before or after use, in this or another file) with "
        "aliases and payee patterns and used by alias, in other case or undeclared, with postings to unknown accounts; the three "
        "listings, the register and the flat balance are run under random hash keys, listing order and read splitting and "
        "compared with the names of the reference model.")
ASSUME = ["which spelling of an undeclared name is shown is left open (compared without case)"]


def make(rng, tier):
    o, items = gen.journal(rng, directives=False, n=gen.count(rng, [2, 4, 7]), autos=rng.choice([0, 0, 1]))
    items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    extra = []
    if rng.random() < 0.4:
        extra.append({"t": "acct", "name": rng.choice(["Never:Used", "zz top", "Ärger:Groß"]), "alias": ["nu"], "payee": []})
    if rng.random() < 0.3:
        extra.append({"t": "payee", "name": rng.choice(["Nobody", "zebra", "Ñandú"]), "alias": ["^nobody$"]})
    if rng.random() < 0.3:
        extra.append({"t": "comm", "name": rng.choice(["XAU", "zł", "Ω"]), "alias": ["gold"]})
    items = extra + items
    rng.shuffle(items)
    if rng.random() < 0.3:
        # the word is not at the end
        for it in rng.sample(items, len(items)):
            if it["t"] == "txn":
                rng.choice(it["posts"])["a"] = rng.choice(["Unknown:Things", "Expenses:Unknown things", "Unknowns", "unknown:x"])
                break
    case = None
    if rng.random() < 0.3:
        # undeclared names in several spellings
        case = rng.choice(["Odd:Name", "Other:Thing"])
        for x in (case, case.upper(), case.lower()):
            items.insert(rng.randint(0, len(items)), {"t": "txn", "date": gen.day(o.base + rng.randrange(o.days)), "desc": rng.choice(["Odd", "ODD", "odd"]),
                                                      "posts": [gen.post(x, 1, o.comms[0]), gen.post("Odd:Rest")]})
    s = {"tree": gen.spread(rng, items, maxdepth=2), "pert": swarm(rng)}
    if rng.random() < 0.1:
        # a name that may be too long for its column
        words, n = rng.choice(["Größenwahn Söhne Überlänge Zürich", "The long name of a shop", "日本語の説明 コーヒー", "x", "Niño y Señora", "a b c d e"]), rng.randint(20, 60)
        s["long"] = " ".join([words] * 60)[:n].strip() or "x"
    return s


def check(s, ctx):
    files = gen.render(s["tree"])
    items = gen.flatten(s["tree"])
    led = model.Ledger(items)

    def run(cmd):
        r = ctx.run(world(cmd + ["-f", MAIN], files, s["pert"]))
        what = "dinero %s on %s" % (" ".join(cmd), show(files))
        expect(r.ok, "refused", "%s gives %s" % (what, r.brief()))
        return r.out, what

    for cmd, names in (("accounts", led.accounts), ("payees", led.payees), ("commodities", led.comms)):
        o, what = run([cmd])
        got = o.decode().split("\n")
        expect(got.pop() == "", "unfinished line", "%s ends without a newline" % what)
        expect(got == sorted(got, key=lambda x: x.encode()), "not sorted", "%s: %s is not sorted" % (what, got))
        declared = {n for n in names.decl}
        key = lambda n: n if n in declared else n.lower()
        a, b = sorted(map(key, got)), sorted(map(key, names.listing()))
        expect(a == b, "wrong listing", "%s: shows %s instead of %s" % (what, got, names.listing()))
        ctx.probe(cmd, len(got))
    o, what = run(["reg"])
    got = [(d, y, sorted((x[0], x[1]) for x in ps)) for d, y, ps in out.register(o)]
    want = [(d, y, sorted(ps)) for d, y, ps in led.register()]
    expect(spelt(got, led) == spelt(want, led), "wrong names in the register", "%s: shows %s instead of %s" % (what, got, want))
    o, what = run(["bal", "--flat"])
    rows, _ = out.balance(o)
    got = sorted((spelling(n, led.accounts), sorted(m)) for _, n, m in rows)
    want = sorted((spelling(n, led.accounts), sorted(m)) for n, m in model.flat_lines(led.balances()))
    expect(got == want, "wrong names in the balance", "%s: shows %s instead of %s" % (what, got, want))
    if s.get("long"):
        name = s["long"]
        files = {MAIN: "2021-01-05 %s\n    A:B  1 EUR\n    C:D\n" % name}
        r = ctx.run(world(["reg", "-f", MAIN], files, s["pert"]))
        what = "dinero reg on %s gives %s" % (show(files), r.brief())
        m = re.match(r"2021-01-05 (.*?) +A:B +1.00 EUR", r.out.decode("utf-8", "replace"))
        expect(r.ok and m, "refused", what)
        shown = m.group(1)
        cut = shown.endswith("..") and 30 <= len(shown) - 2 < len(name) and name.startswith(shown[:-2])
        expect(shown == name or cut, "wrong name in the register", what)
        ctx.probe("a long name, cut" if cut else "a long name, whole")
