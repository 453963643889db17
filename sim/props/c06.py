"""Every run ends; include cycles are refused."""
import errno as E
import gen
from lib import *
from props import c05

COUNT = (12000, 300000)
RULE = ("Three kinds of scenario. Cycle: a random tree of files gets one include back to a file on its own include path, "
        "spelled with dot segments, symbolic links to files or directories or a wildcard; it has to be refused, and the same "
        "tree with that file merely included twice where this makes no cycle accepted. Damage: random edits of the text of "
        "journals, init files and arguments; the run has to end with an exit status within the step and CPU limit. Faults: "
        "random errors, lasting or not, at random steps; the run has to end with an exit status.")
KEEP = ("args",)
ASSUME = ["limits of a run: 400000 simulated system calls, 4 s of CPU (an undisturbed run takes some 60 calls, 2 ms)",
          "include nesting below 1000 levels (the 8 MB stack ends there)"]
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"]]
SNIPPETS = ["(", ")", "/", "[", "]", ";", "\n", "\n    ", " ", "  ", "\t", "= ", "@", "@@", "0", "-", "%", "*", "include ", "expr ",
            ":", "::", "{", "}", "\"", "\r\n", "\r", "é", "\u00a0", "\u0660", "payee ", "    alias (", "    payee [", "tag ",
            "    check x", "    assert y", "    note ", "    format ", "    default", "    isin ", "1/0", "=", "= 0", "2021-01-01",
            "2021-02-30", "99999999999999999999999", "P ", "commodity ", "account ", "    ; :a:", ";;", "((((", "!", "~", "\0",
            "#", "|", "and", "or", "not", "any", "\ufeff", "; x: 1", "\u2028", "(1 * 2", "@ 0 X", "comment\n", "end comment"]
TAILS = ["    A:B  (amount * 2 ; half", "    A:B  (1 + 2", "    (A:B  3", "    [A:B", "    A:B  \"X", "    A:B  1 \"X Y", "    A:B  1 EUR @ (", "    A:B  1 EUR {", "    A:B  1 EUR {{2 EUR}",
         "    A:B  1 EUR [2021-01-", "    A:B  ; :tag", "    ; :a:b", "    ; key:", "    ; key: ", "    A:B  1 EUR = ", "    A:B  1 EUR @", "    A:B  1 EUR @@ 3", "    A:B  =",
         "= expr \"account =~ /x", "= expr 'a", "= /x", "= (", "= %t and", "= expr any(", "= expr \"any(", "= @", "= %", "=", "2021-01-0", "2021-01-02", "2021-01-02 *",
         "2021-01-02 (", "2021-01-02 (code", "2021-01-02 x |", "2021-01-02=", "2021-01-02=2021-", "2021-01-02 x ;", "2021-01-02 x  ; :a", "2021-01-02 12:", "P 2021-01-01 \"X", "P 2021-01-01",
         "P 2021-01-01 10:0", "P 2021-01-01 X 1", "P", "account", "account ", "account A\n    ", "account A\n    alias", "account A\n    payee ", "payee", "payee X\n    alias ",
         "commodity", "commodity \"X", "commodity X\n    format", "commodity X\n    default", "tag", "tag X\n    check", "tag X\n    assert", "include", "include ", "include *", "include [",
         "include x[", "include **", "include ..", "comment", "comment\nx", "test", "price", "D 1 EUR", "Y2021", "apply tag x", "bucket A", "!include x", "@account", "~ monthly\n    A  1 EUR",
         "    A:B  (amount", "    A:B  (amount * (2)", "    A:B  1/", "    A:B  -", "    A:B  .", "    A:B  1.", "    A:B  1,", "    A:B  1.2.3 EUR", "    A:B  - 1 EUR", "    A:B  --1 EUR", "    A:B  EUR",
         "    A:B  EUR -", "    A:B  $", "    A:B  $-", "    A:B  1$$", "\ufeff", "\r", "    \r", ";", "; ", "#", "%", "*", "|", "!", "\t", "    ", "    ;", "    A:B  1 EUR  ;"]
# pieces to build half-finished constructions from
WORDS = ["(", ")", "(", ")", "\"", "\"", "'", "'", "/", "/", "amount", "account", "date", "abs", "any", "not", "and", "or", "has_tag", "tag(", "to_date", "*", "+", "-", "<", ">=", "==",
         "=~", "2", "0.5", ".", "EUR", "$", "@", "@@", "=", ";", ":", ",", "{", "}", "[", "]", "|", "%", "!", "\\", " ", " ", "  ", "\t", "\n", "\n    ", "2021-01-01", "today", "x", "é", "A:B", "true", "{{", "\r"]
FRAMES = ["= x\n    (V)  %s\n", "= x\n    V  (amount %s\n", "= %s\n    (V)  2\n", "= expr \"%s\n    (V)  2\n", "= expr %s\n    V  1\n", "2021-01-05 Mix\n    A  1 EUR %s\n    B\n",
          "2021-01-05 Mix\n    A  %s\n    B\n", "2021-01-05 %s\n    A  1 EUR\n    B\n", "2021-01-05 Mix  ; %s\n    A  1 EUR  ; %s\n    B\n", "P 2021-01-01 %s\n", "account %s\n    alias %s\n",
          "account A\n    %s\n    payee %s\n", "payee %s\n    alias %s\n", "commodity %s\n    format %s\n", "tag %s\n    check %s\n", "include %s\n", "%s\n", "2021-01-05 Mix\n    (%s)  1 EUR\n    B\n",
          "2021-01-05 Mix\n    A  (%s)\n    B\n"]
QUERY = ["exp", "(", ")", "@", "%", "a)", "/x/", "expr", "any(true)", "[", "*", "", " ", "not", "and", "or", "-x", "--", "expr true",
         "payee =~ /a/", "expr (account =~ /x", "@[", "%(", "\u00e9", "1 == 1", "date >= [2021]", "amount > 3", "expr 1/0"]
DATES = ["2021", "2021-02", "2021-2-30", "today", "", "9999999", "0000-00-00", "tomorrow", "2021-13", "x", "-1", "262144-01-01",
         "last friday", "2021-02-03-04", "\u0662\u0660\u0662\u0661-01"]


def make(rng, tier):
    o, items = gen.journal(rng)
    if rng.random() < 0.3:
        items = gen.enrich(rng, o, items, ambiguous=True)
    gen.style_up(rng, items)
    kind = rng.random()
    if kind < 0.4:
        tree = gen.spread(rng, items, maxdepth=3)
        # chain of files from the main one down to a random one
        every = []

        def walk(f, up):
            every.append(up + [f])
            for e in f["e"]:
                if "inc" in e:
                    for g in e["f"]:
                        walk(g, up + [f])
        walk(tree, [])
        chain = [f["path"] for f in rng.choice(every)]
        return {"kind": "cycle", "args": rng.choice(CMDS), "tree": tree, "pert": swarm(rng), "from": chain[-1],
                "to": rng.choice(chain), "how": rng.randrange(9), "at": rng.random(), "spell": list(rng.choice(c05.SPELL)),
                "again": rng.random()}
    args = list(rng.choice(CMDS))
    s = {"kind": "damage" if kind < 0.8 else "faults", "args": args, "tree": gen.spread(rng, items, maxdepth=2),
         "pert": swarm(rng), "init": {}, "edits": [], "f": []}
    if s["kind"] == "damage":
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            s["edits"].append([rng.random(), rng.random(), rng.choice(["del", "ins", "dup", "cut", "swap", "line", "rep"]),
                               rng.choice(SNIPPETS) if rng.random() < 0.9 else rng.choice(SNIPPETS) * rng.choice([50, 300]),
                               rng.random()])
        if rng.random() < 0.3:
            # the text ends in the middle of something
            s["edits"].append([rng.random(), 1.0, "tail", rng.choice(TAILS), rng.random()])
        if rng.random() < 0.35:
            f = rng.choice(FRAMES)
            t = f % tuple("".join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3, 5, 8]))) for _ in range(f.count("%s")))
            s["edits"].append([rng.random(), rng.random(), "mix", t, rng.random()])
        if rng.random() < 0.3:
            args += rng.sample(QUERY, rng.choice([1, 2, 3]))
        if rng.random() < 0.06:
            args += [rng.choice(["--begin", "--end"]), rng.choice(DATES)]
        if rng.random() < 0.15:
            args += ["-X", rng.choice(o.comms + ["", "nope"])]
        if rng.random() < 0.2:
            s["init"]["/home/u/.ledgerrc"] = rng.choice(["--", "--=", "--x", "-", "--real=1", "--depth", "--depth x", "\t--real", "\ufeff",
                                                         "--init-file a", "--init-file /home/u/.ledgerrc", "--file", "", "\n\n ; \n"])
    else:
        s["f"] = [[rng.random(), rng.random(), rng.random()] for _ in range(4)]
    return s


def edited(t, e):
    _, b, op, x, c = e
    i = int(b * (len(t) + 1))
    j = min(len(t), i + 1 + int(c * 12))
    if op == "del":
        return t[:i] + t[j:]
    if op == "ins":
        return t[:i] + x + t[i:]
    if op == "dup":
        return t[:i] + t[i:j] * 2 + t[j:]
    if op == "cut":
        return t[:i]
    if op == "tail":
        return (t if c < 0.5 else t.rstrip("\n") + "\n") + ["= x\n", "2021-01-05 Tail\n", "", "2021-01-05 Tail\n    C  1 EUR\n"][int(c * 1000) % 4] + x
    if op == "mix":
        x = x.rstrip("\n") if c < 0.3 else x
        spots = [0] + [k + 2 for k in range(len(t) - 1) if t[k:k + 2] == "\n\n"] + [len(t)]
        i = spots[int(b * len(spots))] if c > 0.3 else len(t)
        return t[:i] + x + t[i:]
    if op == "rep":
        return t[:i] + x + t[j:]
    ls = t.split("\n")
    k = int(b * len(ls))
    if op == "line":
        return "\n".join(ls[:k] + [x + ls[k]] + ls[k + 1:])
    m = int(c * len(ls))
    ls[k], ls[m] = ls[m], ls[k]
    return "\n".join(ls)


def ends(r, what):
    expect(not r.hung, "hung", "%s does not end" % what)
    expect(r.sig == 0, "killed", "%s is ended by signal %d: %s" % (what, r.sig, r.err[-300:].decode("utf-8", "replace")))


def check(s, ctx):
    files = gen.render(s["tree"])
    if s["kind"] == "cycle":
        return cycle(s, ctx, files)
    args = s["args"] + ["-f", MAIN]
    for e in s["edits"]:
        ps = sorted(files)
        p = ps[int(e[0] * len(ps))]
        files[p] = edited(files[p], e)
    files.update(s["init"])
    w = world(args, files, s["pert"])
    r = ctx.run(w)
    ctx.probe("damaged text %s" % ("accepted" if r.ok else "refused") if s["edits"] else "undamaged")
    ends(r, "dinero %s on %s" % (" ".join(args), show(files)))
    for a, b, c in s["f"]:
        x = dict(w)
        step = 1 + int(a * r.steps)
        en = [E.EIO, E.ENOSPC, E.ENOENT, E.EACCES, E.EPIPE, E.EMFILE, E.EINTR, E.EAGAIN, E.ENOMEM][int(b * 9)]
        x["faults"] = [[step, int(c * 3), "E", en]] if c < 0.8 else [[step, 0, "Z" if c < 0.9 else "S", int(b * 5)]]
        q = ctx.run(x)
        what = "dinero %s with fault %s at step %d on %s" % (" ".join(args), x["faults"][0], step, show(files))
        expect(not q.hung, "hung", "%s does not end" % what)
        # an error on the random source or the terminal may end the Rust runtime itself
        ev = [e for e in q.events() if e[0] == step]
        if not (ev and ev[0][1] in ("getrandom", "write2")):
            ends(q, what)


def cycle(s, ctx, files):
    src, dst = s["from"], s["to"]
    sd = src.rsplit("/", 1)[0]
    dd, dn = dst.rsplit("/", 1)
    rel = os.path.relpath(dst, sd)
    esc = lambda t: t.replace("[", "[[]")
    links, dirs = {}, {}
    how = s["how"]
    if how == 0:
        inc = esc(rel)
    elif how == 1:
        inc = esc("./" + rel)
    elif how == 2:
        inc = esc("../" + sd.rsplit("/", 1)[1] + "/" + rel)
    elif how == 3:
        links[sd + "/back link.ledger"] = dst
        inc = "back link.ledger"
    elif how == 4:
        links[sd + "/zz/hop.ledger"] = "/w/hop2.ledger"
        links["/w/hop2.ledger"] = os.path.relpath(dst, "/w")
        inc = "zz/hop.ledger"
    elif how == 5:
        links[sd + "/zdir/up"] = dd
        inc = esc("zdir/up/" + dn)
    elif how == 6:
        inc = esc(rel[:-len(dn)]) + "*" + dn[1:]
        # the pattern has to match nothing but the target
        if any(p != dst and p.startswith(dd + "/") and "/" not in p[len(dd) + 1:] and p.endswith(dn[1:]) for p in files):
            inc = esc(rel[:-len(dn)]) + "[" + dn[0] + "]" + dn[1:]
    elif how == 7:
        links[sd + "/only/me.ledger"] = dst
        inc = "only/*.ledger"
    else:
        dirs[sd + "/hole"] = 0o755
        inc = esc("hole/../" + rel)
    t = files[src].split("\n")
    # an include line stands between two entries: at the start of the text or after a blank line
    spots = [0] + [i + 1 for i, l in enumerate(t[:-1]) if l == ""]
    t.insert(spots[int(s["at"] * len(spots))], "include " + inc)
    bad = dict(files)
    bad[src] = "\n".join(t)
    cwd, name = s["spell"]
    args = s["args"] + ["-f", name]
    r = ctx.run(world(args, bad, s["pert"], cwd=cwd, links=links, dirs=dict(dirs, **{"/home/u": 0o755})))
    what = "dinero %s in %s on %s with links %s" % (" ".join(args), cwd, show(bad), links)
    ends(r, what)
    expect(not r.ok, "cycle accepted", "%s: %s includes itself, but the run exits 0 and prints %r"
           % (what, dst, r.out.decode("utf-8", "replace")[:400]))
    expect(r.out == b"" or b" is KO" in r.out, "report despite cycle", "%s prints %r" % (what, r.out[:400]))
    ctx.probe("cycle refused, spelling %d" % how)
    # the same file twice without a cycle is fine
    if src != MAIN and not any("include" in files[src] for _ in [0]):
        good = dict(files)
        rel = os.path.relpath(src, "/w")
        if s["again"] < 0.3:
            lk = {"/w/second name.ledger": src}
            rel = "second name.ledger"
        else:
            lk = {}
        good[MAIN] = files[MAIN] + "\n" + ("include %s\n" % esc(rel)) * 2
        flat = dict(files)
        flat[MAIN] = files[MAIN] + "\n" + files[src] + "\n" + files[src]
        a = ctx.run(world(s["args"] + ["-f", MAIN], good, s["pert"], links=lk))
        b = ctx.run(world(s["args"] + ["-f", MAIN], flat, s["pert"]))
        expect(same(a, b), "repeated include", "dinero %s on %s gives %s, with the text repeated %s"
               % (" ".join(s["args"]), show(good), a.brief(), b.brief()))
        ctx.probe("repeated include accepted" if a.ok else "repeated include refused")
