"""A refusal points at the culprit."""
import re
import gen, model
from lib import *
from out import ANSI
import props.c09 as c09
import props.c05 as c05

COUNT = (30000, 600000)
RULE = ("A random valid journal gets one defect: an unknown line, a malformed header, price, directive or posting, an unknown detail of a directive, an include that closes a cycle or that names a file which is missing, a directory, unreadable, not text or fails to be read, at a random place of a random "
        "tree of files, or a transaction that does not balance or whose assertion fails. It is run with a random command under random read splitting, "
        "listing order, interrupted reads and hash keys. Standard error has to name the very file and line, or show the very "
        "transaction, the first in date order if several are wrong.")
KEEP = ("args",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"]]
# text and the line of it that is wrong
BAD = [("garbage here", 0), ("{", 0), ("garbage", 0), ("éclair", 0), ("$100", 0), ("Rent 30 EUR", 0), ("unknown directive", 0), ("\"quoted\"", 0),
       ("2021-01-01 Bad\n    A  1.2.3 EUR\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR\n    B  1.1.1 EUR", 2), ("2021-01-01 Bad\n    ; note\n    A  1 EUR\n    B  EUR", 3),
       ("2021-01-01 * Bad\n    (A  1 EUR\n    B", 1), ("2021-01-01 Bad\n    A  EUR\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR @ \n    B", 1),
       ("2021-01-01 Bad\n    A  1 EUR =\n    B", 1), ("2021-01-01 Bad\n    A  - EUR\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR  ; x\n    C  2 EUR\n    B  1.1.1 EUR", 3),
       ("account X:Y\n    nonsense x", 1), ("account X:Y\n    note fine\n    nonsense x", 2), ("commodity EUR\n    strange", 1), ("payee P\n    strange x", 1),
       ("tag t\n    strange x", 1), ("commodity CHF\n    note a\n    format 1 CHF\n    strange x", 3),
       ("acount X:Y\n    note x", 0), ("account", 0), ("a", 0), ("payeex Y", 0), ("payee", 0), ("tagg x", 0), ("tag", 0), ("commodit X", 0), ("commodity A B\n    note x", 0),
       ("commodity", 0), ("P x", 0), ("P 2021-02-30 EUR 1 USD", 0), ("P 2021-01-01 EUR USD", 0), ("P 2021-01-01 EUR x USD", 0), ("Price 1", 0), ("2021-13-01 Bad\n    A  1 EUR\n    B", 0),
       ("2021-02-29 Bad\n    A  1 EUR\n    B", 0), ("2021-01-32 Bad\n    A  1 EUR\n    B", 0), ("2021-01/01 Bad\n    A  1 EUR\n    B", 0), ("2021-01-01=2021-04-31 Bad\n    A  1 EUR\n    B", 0),
       ("2021-01-01Bad\n    A  1 EUR", 0), ("2021 Bad", 0), ("1", 0), ("99999999999-01-01 Bad", 0), ("²", 0), ("2021-01-01 Bad\n    1  1 EUR", 1),
       ("includ x.ledger", 0), ("include", 0), ("i", 0), ("; x\n    stray", 1), ("P 2021-01-01 EUR 1 USD\n\n    stray  1 EUR", 2), ("2021-01-01 Bad\n    A  1 EUR\n    [B  -1 EUR", 2), ("2021-01-01 Bad\n    A  1 EUR @@ x\n    B", 1),
       ("2021-01-01 Bad\n    A  1,000.00 EUR\n    B", 1), ("2021-01-01 Bad\n    A  10,50 EUR\n    B", 1), ("2021-01-01 Bad\n    A  10 EUR 20 USD\n    B", 1), ("2021-01-01 Bad\n    A  10 EUR {5 USD}\n    B", 1),
       ("2021-01-01 Bad\n    A  1 EUR\n    C  $1,000.00\n    B", 2), ("2021-01-01 Bad\n    A  1 EUR @ 2 USD @@ 3 USD\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR = 1 EUR = 2 EUR\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR  (2)\n    B", 1),
       ("2021-01-01 Bad\n    A  1 EUR\n    B  (-1 EUR)", 2), ("2021-01-01 Bad\n    A  (amount)  ; x\n    B", 1), ("2021-01-01 Bad\n    (A)  1 EUR @ 2 USD 3 USD", 1), ("2021-01-01 Bad\n    A  1 2 EUR\n    B", 1), ("= /a/\n    (B)  10 EUR 20 USD", 1),
       ("2021-01-01 Bad\n    A  1 \"EUR\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR\n    C  \"Fund A 2\n    B", 2), ("2021-01-01 Bad\n    A  1 EUR\"x\n    B", 1),
       ("2021-01-01 Bad\n    A  1 \"Fund ; A\n    B", 1), ("2021-01-01 Bad\n    A  1 EUR @ 2 \"Fund\n    B", 1), ("2021-01-01 Bad\n    A  1 \"\"\n    B", 1),
       ("2021-01-01 Bad\n    A  .-7 EUR\n    B", 1), ("2021-01-01 Bad\n    A  1-1 EUR\n    B", 1),
       ("2021-01-01 Bad\n    A  = x\n    B", 1), ("2021-01-01 Bad\n    Ñ  1..2 EUR\n    B", 1)]
GONE = ["missing", "missing", "directory", "mode", "bytes", "fault"]
# fine as far as reading goes, but not one line each
BEFORE = ["= nobody\n    (V:A)  (amount *\n      2)", "= nobody\n    V:A  (amount\n * (2 +\n 1))  ; x\n    V:B  -1", "= nobody\n    (V:A)  (2 *\n    (amount))", "account Q:R\n    ; one\n    ; two\n    note three",
          "account Q:S\n    alias qs\n\n    note after a blank line", "commodity CHF\n    note x\n    format 1.00 CHF\n    default", "commodity QQQ ; remark", "payee Q\n    alias Q.*\n    ; remark", "payee R  ; remark\n    alias RR",
          "tag q\n    check x\n    ; remark\n    assert y", "2021-01-01 Q\n    ; a\n    A  1 EUR  ; b\n    ; c\n    B\n    ; d", "2021-01-01 Q\n\n    A  1 EUR\n   \n    B", "2021-01-01 Q\n    A  1 EUR   \n    B  ",
          "2021-01-01 Q", "2021-01-01 Q  ; :x:\n    (V)  1 EUR\n    A  1 \"EUR\"\n    B  -1 EUR", "P 2021-01-01 EUR 1.1 USD ; x", "P 2021-01-01 10:00:00 EUR 1.1 USD", "; a\n# b\n% c\n* d\n! e",
          "\n\n\n", "2021-01-01 Q\n\tA\t1 EUR\n\tB\t", "2021-01-01 Q\n    A  1 EUR @ 2 USD\n    B", "2021-01-01 Q\n    A  1 EUR @@ 2 USD = 1 EUR\n    B  = 3 EUR", "2021-01-01 Q\n    A  = 3 EUR\n    B"]


def make(rng, tier):
    o, items = gen.journal(rng)
    if rng.random() < 0.3:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items)
    s = {"args": rng.choice(CMDS), "pert": swarm(rng), "bad": None, "spell": rng.choice(["main.ledger", MAIN, "./main.ledger", "../w/main.ledger"]),
         "gap": rng.choice([0, 1, 1, 2])}
    s["crlf"] = rng.random() < 0.15
    u = rng.random()
    if u < 0.2:
        s["tree"] = gen.spread(rng, items, maxdepth=rng.choice([0, 1, 2, 3]), multi=True)
        every = []
        c05.descend(s["tree"], every)
        f = rng.choice(every)
        d = f["path"].rsplit("/", 1)[0]
        if u < 0.06:
            s["bad"] = 0
            inc = os.path.relpath(rng.choice([MAIN, f["path"]]), d).replace("[", "[[]")
        else:
            s["gone"] = [rng.choice(GONE), rng.choice(["/w/gone/culprit.ledger", "/w/gone/sub/culprit é.ledger", "/gone/culprit", "/w/gone x/my culprit.dat"]), rng.random()]
            inc = os.path.relpath(s["gone"][1], d).replace("[", "[[]")
        f["e"].insert(rng.randint(0, len(f["e"])), {"t": "raw", "text": "include " + inc, "mark": 1})
        return s
    if u < 0.65:
        t, off = rng.choice(BAD)
        s["bad"] = off
        items.insert(rng.randint(0, len(items)), {"t": "raw", "text": t, "mark": 1})
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            items.insert(rng.randint(0, len(items)), {"t": "raw", "text": rng.choice(BEFORE)})
    else:
        txns = [it for it in items if it["t"] == "txn"]
        for _ in range(rng.choice([1, 1, 2])):
            c09.bend(rng, rng.choice(txns))
        if rng.random() < 0.3:
            real = [p for t in txns for p in t["posts"] if p["k"] == "R" and p.get("amt")]
            if real:
                rng.choice(real)["bal"] = [gen.fdec(gen.number(rng)), rng.choice(o.comms)]
        for n, it in enumerate(txns):
            it["desc"] = "%s %d" % (it["desc"], n)
            it.pop("code", None)
    s["tree"] = gen.spread(rng, items, maxdepth=rng.choice([1, 2, 3]), multi=True)
    return s


def place(f, gap):
    """(path, line) of the marked item"""
    n = 1
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                r = place(g, gap)
                if r:
                    return r
            n += 1
        else:
            if e.get("mark"):
                return f["path"], n
            n += len(gen.witem(e)) + gap
    return None


def check(s, ctx):
    files = gen.render(s["tree"], gap=s["gap"])
    items = gen.flatten(s["tree"])
    args = s["args"] + ["-f", s["spell"]]
    if s.get("crlf"):
        files = {p: t.replace("\n", "\r\n") for p, t in files.items()}
    w = world(args, files, s["pert"])
    what = "dinero %s on %s" % (" ".join(args), show(files))
    if s.get("gone"):
        if place(s["tree"], s["gap"]) is None:
            return
        how, p, at = s["gone"]
        if how == "directory":
            w["dirs"] = dict(w["dirs"], **{p: 0o755})
        elif how != "missing":
            files[p] = "2021-01-01 In\n    A  1 EUR\n    B\n" if how != "bytes" else b"2021-01-01 In\n    \xe9  1 EUR\n    B\n"
            w["files"] = files
        if how == "mode":
            w["modes"] = {p: 0}
        if how == "fault":
            steps = [st for st, op, path, ret, err in ctx.run(w).events() if os.path.normpath(os.path.join("/w", path)) == p and op in ("open", "read")]
            if not steps:
                return
            w["faults"] = [[steps[int(at * len(steps))], 1, "E", 5]]
        r = ctx.run(w)
        what = "dinero %s on %s, where %s cannot be read (%s)" % (" ".join(args), show(files), p, how)
        expect(not r.ok, "accepted", "%s: exits 0" % what)
        err = ANSI.sub("", r.err.decode("utf-8", "replace"))
        named = [os.path.normpath(os.path.join("/w", q)) for q in re.findall(r'["\'](.*?)["\']', err)]
        ctx.probe("file named")
        expect(p in named, "file not named", "%s: the message does not name it: %r" % (what, err[:500]))
        others = set(files) - {p}
        expect(not others & set(named), "wrong file named", "%s: the message names %s: %r" % (what, sorted(others & set(named)), err[:500]))
        return
    if s["bad"] is not None:
        where = place(s["tree"], s["gap"])
        if where is None:
            return
        r = ctx.run(w)
        expect(not r.ok, "accepted", "%s is not valid (%s line %d), but accepted" % (what, where[0], where[1] + s["bad"]))
        err = ANSI.sub("", r.err.decode("utf-8", "replace"))
        named = [(os.path.normpath(os.path.join("/w", p)), int(l)) for p, l in re.findall(r'--> "(.*)":(\d+):\d+', err)]
        ctx.probe("line named")
        expect(named == [(where[0], where[1] + s["bad"])], "wrong place", "%s: the defect is in %s line %d, the message names %s: %r"
               % (what, where[0], where[1] + s["bad"], named, err[:500]))
        return
    try:
        model.Ledger(items)
        return
    except model.Refused as e:
        t = e.txn
    r = ctx.run(w)
    expect(not r.ok, "accepted", "%s is not valid, but accepted" % what)
    err = ANSI.sub("", r.err.decode("utf-8", "replace")).split("\n")
    ctx.probe("transaction shown")
    head = "%s %s" % (t.date, t.desc)
    expect(head in err, "wrong transaction", "%s: the transaction %s is wrong, the message is %r" % (what, head, err[:20]))
    shown = [l for l in err if re.match(r"\d{4}-\d\d-\d\d .* \d+$", l)]
    expect(shown == [head], "wrong transaction", "%s: the transaction %s is wrong, the message shows %s" % (what, head, shown))
