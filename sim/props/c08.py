"""A cut-off file is read as far as it is whole, or refused."""
import copy
import gen, model, out, part
from lib import *

COUNT = (5200, 150000)
RULE = ("A random tree of files; per scenario the final newlines are left out, and up to 6 cuts at a random byte of a random "
        "file are made three ways: the file ends there, a read meets an early end of file there, and the file ends there "
        "followed by a newline. All three have to agree, a cut inside a character has to be refused, and after a cut at the "
        "end of a line the register has to be what the reference model makes of the lines that are left. What the first half "
        "of a header, posting or declaration says is read independently of dinero and handed to the model too.")
KEEP = ("args",)
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"]]


def make(rng, tier):
    o, items = gen.journal(rng)
    if rng.random() < 0.4:
        items = gen.enrich(rng, o, items)
    gen.style_up(rng, items, lines=False)
    if rng.random() < 0.3:
        items.append(rng.choice([{"t": "auto", "q": [["a", "Bank", None]], "posts": [{"a": "Auto:V", "k": "V", "mul": "0.5"}]},
                                 {"t": "acct", "name": "Last:One", "alias": ["lo"], "payee": []},
                                 {"t": "payee", "name": "Last", "alias": ["^Last"]}, {"t": "tag", "name": "last"},
                                 {"t": "comm", "name": "LST", "alias": ["last"]},
                                 {"t": "price", "date": "2021-01-01", "c": "LST", "n": "2", "o": "EUR"},
                                 {"t": "comment", "text": "; the end"}]))
    tree = gen.spread(rng, items, maxdepth=2)
    return {"args": rng.choice(CMDS), "tree": tree, "pert": swarm(rng),
            "cuts": [[rng.random(), rng.random(), rng.random()] for _ in range(6)]}


def cut_posts(it, n):
    """The postings of the first n lines they are written with."""
    r = []
    for p in it["posts"]:
        full = gen.wpost(p, it.get("style", 0)).split("\n")
        if n >= len(full):
            r.append(p)
        elif n > 0:
            # some of the lines below the posting are lost
            for gone in (["note"], ["tags", "vals"], ["note", "tags", "vals"]):
                q = {k: v for k, v in p.items() if k not in gone}
                if gen.wpost(q, it.get("style", 0)).split("\n") == full[:n]:
                    r.append(q)
                    break
            else:
                raise ValueError("posting %r cut after %d lines" % (p, n))
        n -= len(full)
        if n <= 0:
            break
    return r


def cut_item(it, lines):
    """The item its first lines (of those it is written with) make."""
    full = gen.witem(it)
    if lines >= len(full):
        return it
    c = dict(it)
    n = lines - 1
    if it["t"] == "txn":
        if it.get("tags"):
            if n == 0:
                c["tags"] = []
            else:
                n -= 1
        k = len(it.get("vals", ()))
        if k:
            c["vals"] = it["vals"][:n]
            n = max(0, n - k)
        if it.get("note"):
            if n == 0:
                c["note"] = None
            else:
                n -= 1
        c["posts"] = cut_posts(it, n)
    elif it["t"] == "auto":
        if it.get("tags"):
            if n == 0:
                c["tags"] = []
            else:
                n -= 1
        c["posts"] = cut_posts(it, n)
    else:
        c["alias"] = it.get("alias", [])[:n]
        if it["t"] == "acct":
            c["payee"] = it.get("payee", [])[:max(0, n - len(it.get("alias", [])))]
    return c


def prefix_tree(f, path, line):
    """The tree with the file at path cut after a number of lines; (tree, lines counted)."""
    def go(g):
        h = {"path": g["path"], "e": []}
        mine = g["path"] == path
        left = line
        for e in g["e"]:
            n = 1 if "inc" in e else len(gen.witem(e)) + 1
            if mine and left <= 0:
                break
            if "inc" in e:
                h["e"].append({"inc": e["inc"], "f": [go(x) for x in e["f"]]})
            else:
                h["e"].append(cut_item(e, left) if mine else e)
            left -= n
        return h
    return go(f)


def last_of(f, path):
    """The last item of a file of the tree."""
    r = None
    for e in f["e"]:
        if "inc" in e:
            for g in e["f"]:
                r = last_of(g, path) or r
        elif f["path"] == path:
            r = e
    return r


def meaning(tree, path, head, whole):
    """What the books mean whose file at path was cut in the middle of a line, whole being that line before:
    items, INVALID or UNKNOWN."""
    line = head.split("\n")[-1]
    t = copy.deepcopy(prefix_tree(tree, path, head.count("\n")))
    items = gen.flatten(t)
    if line.strip() and line[0] in " \t":
        it = last_of(t, path)
        if it["t"] != "txn":
            return part.UNKNOWN
        got = part.read(line, whole)
        if got == part.NOTHING and any(x["t"] == "auto" for x in items):
            return part.UNKNOWN    # half a tag may be what a rule looks for
        if isinstance(got, dict):
            it["posts"] = it["posts"] + [got]
            return items
    else:
        got = part.read(line, whole)
        if isinstance(got, dict):
            return part.UNKNOWN if path != MAIN else items + [got]
    return items if got == part.NOTHING else got


def check(s, ctx):
    files = gen.render(s["tree"])
    args = s["args"] + ["-f", MAIN]
    w0 = world(args, files, s["pert"])
    base = ctx.run(w0)
    bare = {p: t.rstrip("\n") for p, t in files.items()}
    r = ctx.run(dict(w0, files=bare))
    expect(alike(base, r), "final newline", "dinero %s gives %s on %s and %s when the files lack their final newline"
           % (" ".join(args), base.brief(), show(files), r.brief()))
    for a, b, c in s["cuts"]:
        ps = sorted(files)
        p = ps[int(a * len(ps))]
        data = files[p].encode()
        if not data:
            continue
        if c < 0.35:
            # at the end of a line
            ls = files[p].split("\n")[:-1]
            n = int(b * len(ls))
            cut = dict(files)
            cut[p] = "".join(l + "\n" for l in ls[:n])
            if c < 0.15:
                cut[p] = cut[p].rstrip("\n")
            t = prefix_tree(s["tree"], p, n)
            r = ctx.run(world(["reg", "-f", MAIN], cut, s["pert"]))
            what = "dinero reg with %s cut after %d lines, files %s" % (p, n, show(cut))
            try:
                led = model.Ledger(gen.flatten(t))
                want = led.register()
            except model.Refused as e:
                ctx.probe("line cut refused")
                expect(not r.ok, "cut accepted", "%s: the books are not valid (%s), but the run exits 0 and prints %r"
                       % (what, e, r.out.decode("utf-8", "replace")[:400]))
                continue
            ctx.probe("line cut accepted")
            expect(r.ok, "cut refused", "%s: valid books, but the run gives %s" % (what, r.brief()))
            got = out.register(r.out)
            expect(spelt(got, led) == spelt(want, led), "cut misread",
                   "%s: shows %s, the lines left mean %s" % (what, got, want))
            continue
        k = int(b * len(data))
        head = data[:k]
        try:
            head.decode()
            whole = True
        except UnicodeDecodeError:
            whole = False
        runs = []
        cut = dict(files)
        cut[p] = head
        runs.append(("the file ends there", ctx.run(dict(w0, files=cut))))
        if whole:
            cut = dict(files)
            cut[p] = head + b"\n"
            runs.append(("the file ends there with a newline", ctx.run(dict(w0, files=cut))))
        if c > 0.6:
            # a read that meets the end of the file early
            w = dict(w0, chunkr=[1 + int(c * 1000) % 7, 3 + int(c * 10000) % 40])
            tr = ctx.run(w)
            pos, step, n = {}, None, 0
            for st, op, path, ret, err in tr.events():
                if op == "read" and os.path.normpath(os.path.join("/w", path)) == p and ret > 0:
                    if n <= k < n + ret:
                        step, at = st, n
                    n += ret
            if step is not None:
                r = ctx.run(dict(w, faults=[[step, 0, "Z", 0]]))
                cut = dict(files)
                cut[p] = data[:at]
                q = ctx.run(dict(w0, files=cut))
                expect(alike(q, r), "early end of file", "dinero %s, where a read of %s meets the end of file at byte %d, gives %s; "
                       "the file cut there gives %s; files %s" % (" ".join(args), p, at, r.brief(), q.brief(), show(files)))
        for how, r in runs:
            what = "dinero %s with %s cut at byte %d of %d (%s), files %s" % (" ".join(args), p, k, len(data), how, show(files))
            expect(not r.hung and r.sig == 0, "hung", "%s ends with %s" % (what, r.status))
            if not r.ok:
                expect(r.out == b"" or b" is KO" in r.out, "report of a refused run", "%s prints %r" % (what, r.out[:300]))
            if not whole:
                ctx.probe("cut inside a character")
                expect(not r.ok, "half a character accepted", "%s: exits 0 and prints %r" % (what, r.out[:300]))
        if whole:
            # what the first part of the line says
            text = head.decode()
            want = meaning(s["tree"], p, text, files[p].split("\n")[text.count("\n")])
            r = runs[0][1]
            what = "dinero %s with %s cut at byte %d of %d, files %s" % (" ".join(args), p, k, len(data), show(dict(files, **{p: text})))
            if want == part.INVALID:
                ctx.probe("half a line refused")
                expect(not r.ok, "half a line accepted", "%s: exits 0 and prints %r" % (what, r.out[:400]))
            elif want != part.UNKNOWN:
                try:
                    led = model.Ledger(want)
                    want = led.register()
                except model.Refused as e:
                    ctx.probe("half a line makes the books invalid")
                    expect(not r.ok, "cut accepted", "%s: the books are not valid (%s), but the run exits 0 and prints %r" % (what, e, r.out[:400]))
                else:
                    ctx.probe("half a line read")
                    expect(r.ok, "cut refused", "%s: valid books, but the run gives %s" % (what, r.brief()))
                    if args[0] == "reg" and "" not in led.comms.names:
                        got = out.register(r.out)
                        expect(spelt(got, led) == spelt(want, led), "half a line misread", "%s: shows %s, the text left means %s" % (what, got, want))
        if len(runs) == 2:
            x, y = runs[0][1], runs[1][1]
            ctx.probe("byte cut accepted" if x.ok else "byte cut refused")
            expect(alike(x, y), "cut or newline", "dinero %s with %s cut at byte %d of %d gives %s, with a newline after it %s; files %s"
                   % (" ".join(args), p, k, len(data), x.brief(), y.brief(), show(files)))
