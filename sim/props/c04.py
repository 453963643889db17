"""Reports never change the world: a run only reads."""
import errno as E
import gen
from lib import *
from props import c02

COUNT = (16000, 400000)
RULE = ("A random journal (valid, unbalanced or damaged), init files, options, environment, terminal and faults; the "
        "simulated OS records every attempt to create, write, rename, truncate or delete a file or directory, change modes, "
        "start a process or open a socket.")
CMDS = [["bal"], ["bal", "--flat"], ["reg"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"], ["balance"],
        ["register"], ["currencies"], ["--help"], ["help"], ["--version"], ["nonsense"], []]
OPTS = [["--real"], ["--flat"], ["--no-total"], ["-d", "1"], ["--depth", "2"], ["-b", "2021-02-01"], ["--end", "2021/3/1"],
        ["-X", "EUR"], ["--no-balance-check"], ["--force-color"], ["--force-pager"], ["--effective"], ["--strict"],
        ["--date-format", "%d/%m/%Y"], ["--unrealized-gains", "Equity:Gains"], ["--unrealized-losses", "Equity:Losses"],
        ["-p", "monthly"], ["--now", "2021-01-01"], ["expr", "account =~ /A/"], ["exp"], ["@gro"], ["%trip"],
        ["--begin", "2021-13-01"], ["--init-file", "missing.rc"], ["--init-file", "/w/my.rc"]]
ENVS = {"PAGER": "less", "EDITOR": "vi", "LEDGER_FILE": "/w/other.ledger", "LEDGER_PRICE_DB": "/w/prices.db",
        "XDG_CACHE_HOME": "/home/u/.cache", "XDG_CONFIG_HOME": "/home/u/.config", "TMPDIR": "/tmp", "RUST_BACKTRACE": "1",
        "CLICOLOR_FORCE": "1", "NO_COLOR": "1", "TERM": "xterm-256color", "DEBUG": "1", "RUST_LOG": "trace",
        "COLUMNS": "120", "DINERO_DEBUG": "1", "DINERO_CACHE": "/w/cache", "PATH": "/usr/bin:/bin", "SHELL": "/bin/sh", "USER": "u",
        "LOGNAME": "u", "DISPLAY": ":0", "LESS": "-R", "HISTFILE": "/home/u/.history", "LANG": "de_DE.UTF-8", "LC_ALL": "en_US.UTF-8",
        "PWD": "/w", "OLDPWD": "/", "XDG_DATA_HOME": "/home/u/.local/share", "XDG_STATE_HOME": "/home/u/.local/state", "XDG_RUNTIME_DIR": "/run/user/0",
        "VISUAL": "vi", "BROWSER": "firefox", "TEMP": "/tmp", "TMP": "/tmp", "DINERO_FILE": "/w/main.ledger", "DINERO_LOG": "/w/dinero.log"}
DIRS = ["/tmp", "/var/tmp", "/home/u/.cache", "/home/u/.cache/dinero", "/home/u/.config", "/home/u/.config/dinero", "/home/u/.dinero", "/home/u/.local/share",
        "/home/u/.local/state", "/w/cache", "/w/.dinero", "/var/log", "/run/user/0"]


def make(rng, tier):
    o, items = gen.journal(rng)
    if rng.random() < 0.3:
        items.append({"t": "txn", "date": "2021-01-03", "desc": "Off", "posts": [gen.post("A", 1, "EUR"), gen.post("B", 2, "EUR")]})
    s = {"args": list(rng.choice(CMDS)), "tree": gen.spread(rng, items), "pert": swarm(rng), "init": {}, "env": {}, "f": []}
    for x in rng.sample(OPTS, rng.choice([0, 1, 2, 3])):
        s["args"] += x
    if rng.random() < 0.9:
        s["args"] += ["-f", rng.choice([MAIN, MAIN, MAIN, "main.ledger", "/w/none.ledger", "/w"])]
    for p in ("/home/u/.ledgerrc", "/w/.ledgerrc", "/w/my.rc"):
        if rng.random() < 0.2:
            s["init"][p] = rng.choice(["--real\n", "# x\n--file /w/main.ledger\n", "bad\n", "", "--flat\n"])
    for k in rng.sample(sorted(ENVS), rng.choice([0, 0, 1, 3, len(ENVS)])):
        s["env"][k] = ENVS[k]
    if rng.random() < 0.4:
        s["pert"]["tty"] = [rng.choice([1, 2, 4, 6, 7]), rng.choice([0, 20, 80, 300]), 24]
    s["there"] = [d for d in DIRS if rng.random() < 0.5]
    s["damage"] = [rng.random(), rng.random()] if rng.random() < 0.2 else None
    if rng.random() < 0.5:
        s["f"] = [[rng.random(), rng.random(), rng.random()] for _ in range(rng.choice([1, 2, 3]))]
    return s


def check(s, ctx):
    files = gen.render(s["tree"])
    if s["damage"]:
        p = sorted(files)[int(s["damage"][0] * len(files))]
        files[p] = files[p][:int(s["damage"][1] * len(files[p]))]
    files.update(s["init"])
    env = dict(ENV)
    env.update(s["env"])
    w = world(s["args"], files, s["pert"], env=env, dirs=dict({d: 0o755 for d in s["there"]}, **{"/home/u": 0o755}))
    r = ctx.run(w)
    verdict(s, r, "")
    for a, b, c in s["f"]:
        x = dict(w)
        step = 1 + int(a * r.steps)
        x["faults"] = [[step, int(c * 2), "E", [E.EIO, E.ENOSPC, E.ENOENT, E.EACCES, E.EPIPE, E.EMFILE, E.EINTR][int(b * 7)]]]
        verdict(s, ctx.run(x), " with a fault at step %d" % step)


def verdict(s, r, how):
    expect(r.mutations == 0, "changed the world", "dinero %s%s tried to change the world: %s"
           % (" ".join(s["args"]), how, r.mutation_log()[:5]))
