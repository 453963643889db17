"""What every check shares: the context that counts runs, faults and traces, the swarm of
harmless perturbations, and helpers to build worlds."""
import errno, hashlib, json, os, random, zlib

from world import Sim, DAY, DEFAULT_CLOCK

LIST_CMDS = ["accounts", "payees", "commodities", "prices", "check"]
REPORTS = [["bal"], ["bal", "--flat"], ["reg"], ["bal", "--flat", "--depth", "1"], ["bal", "--depth", "2"],
           ["bal", "--no-total"], ["accounts"], ["payees"], ["commodities"], ["prices"], ["check"]]
MAIN = "/w/main.ledger"
NOON = 1614600000 * 10**9   # 2021-03-01T12:00Z


def fault_name(f):
    if f[2] == "E":
        return errno.errorcode.get(f[3], str(f[3])) + (" (lasting)" if f[1] else "")
    return {"S": "short transfer", "Z": "early end of file", "B": "damaged byte"}[f[2]]


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def seed_of(*parts):
    h = hashlib.sha256(":".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "little")


class Ctx:
    """Runs worlds and keeps account of what was covered."""

    def __init__(self, binary, shim):
        self.sim = Sim(binary, shim)
        self.runs = 0
        self.faults = {}
        self.traces = set()
        self.outs = set()
        self.probes = {}
        self.clock_reads = 0
        self.steps = 0

    def run(self, w):
        r = self.sim.run(w)
        self.runs += 1
        self.steps += r.steps
        self.clock_reads += r.clock_reads
        t = zlib.crc32(r.events_raw)
        self.traces.add((t, zlib.crc32(r.out), r.code, r.sig))
        if r.fired:
            for f in w.get("faults", ()):
                if r.steps >= f[0]:
                    self.count("fault", fault_name(f))
        if w.get("alloc") and r.nalloc >= w["alloc"][0]:
            self.count("fault", "allocation failure")
        for a in w.get("acts", ())[:r.acts_fired]:
            self.count("fault", "concurrent " + {"R": "replace", "C": "create", "U": "unlink", "W": "rewrite",
                                                 "M": "rename", "T": "truncate", "K": "clock jump", "D": "mkdir"}.get(a[1], a[1]))
        for k, n in (("chunkr", "short reads"), ("chunkw", "short writes"), ("eintr", "EINTR"),
                     ("dtunknown", "untyped directory entries"), ("ident", "another user, host and file identity"),
                     ("heap", "shuffled heap")):
            if w.get(k):
                self.count("fault", n)
        return r

    def count(self, kind, name, n=1):
        d = self.faults if kind == "fault" else self.probes
        d[name] = d.get(name, 0) + n

    def probe(self, name, n=1):
        self.count("probe", name, n)


def swarm(rng, full=True):
    """Harmless circumstances of a run: none of them may change a report."""
    w = {"seed": rng.getrandbits(31), "dirseed": rng.getrandbits(31)}
    if rng.random() < 0.4:
        w["chunkr"] = rng.choice([[1], [7], [3, 1, 64], [rng.randint(1, 40) for _ in range(3)], [4096]])
    if rng.random() < 0.4:
        w["chunkw"] = rng.choice([[1], [5], [2, 9, 1], [rng.randint(1, 40) for _ in range(3)]])
    if rng.random() < 0.3:
        w["eintr"] = [rng.choice([0, 2, 3, 9]), rng.choice([0, 2, 3, 9])]
    if rng.random() < 0.2:
        w["dtunknown"] = 1
    if rng.random() < 0.3:
        w["ident"] = rng.getrandbits(31) | 1
    if rng.random() < 0.3:
        w["heap"] = rng.getrandbits(31) | 1
    return w


ENV = {"HOME": "/home/u", "TZ": "UTC0", "LANG": "C.UTF-8"}


def world(args, files, pert=None, **kw):
    w = {"args": list(args), "files": files, "env": dict(ENV), "clock": [NOON, 1000]}
    w.setdefault("dirs", {})["/home/u"] = 0o755
    if pert:
        w.update(pert)
    w.update(kw)
    if w.get("chunkr") and sum(map(len, files.values())) > 20000:
        w["chunkr"] = [x * 97 if x < 200 else x for x in w["chunkr"]]   # long files: fewer, larger reads
    if w.get("chunkw") and sum(map(len, files.values())) > 5000:
        w["chunkw"] = [x * 97 if x < 200 else x for x in w["chunkw"]]   # and long reports
    return w


def same(r, s):
    return (r.code, r.sig, r.out) == (s.code, s.sig, s.out)


def alike(r, s):
    """Same report, or both refused."""
    return r.ok == s.ok and (not r.ok or r.out == s.out)


def expect(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def show(files):
    return json.dumps(files, ensure_ascii=False, default=repr)[:1500]


def spelling(name, names):
    """A name as it can be compared: which spelling of an undeclared one is shown is left open."""
    return name if name in names.decl else name.lower()


def spelt(reg, led):
    """The transactions of a register with their postings in order, undeclared names without case."""
    acc = lambda x: (x[0] if x[0] in "([" else "") + spelling(x.strip("()[]"), led.accounts)
    return [(d, spelling(y, led.payees), sorted((acc(x[0]), x[1]) for x in ps)) for d, y, ps in reg]


def regdiff(raw, want):
    """What a register shows that it should not, or lacks; None if it is as wanted. The order of
    transactions counts, the order of the postings in one does not."""
    import out
    got = out.register(raw)
    if [(d, y) for d, y, _ in got] != [(d, y) for d, y, _ in want]:
        return "shows the transactions %s instead of %s" % ([(d, y) for d, y, _ in got], [(d, y) for d, y, _ in want])
    for (d, y, ps), (_, _, qs) in zip(got, want):
        a, b = sorted((p[0], p[1]) for p in ps), sorted(qs)
        if a != b:
            return "shows for %s %s the postings %s instead of %s" % (d, y, a, b)
    return None
