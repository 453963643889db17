#!/usr/bin/env python3
"""check.py ID            decide one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE    run one recorded scenario again
check.py --build          build the executable and the simulated OS
check.py --determinism    run many seeds of every property twice and compare all event logs
"""
import fcntl, hashlib, importlib, json, multiprocessing as mp, os, queue, random, subprocess, sys, time, traceback, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)
import out
from lib import Ctx, Violation, seed_of
from world import HarnessError

BINARY = os.path.join(BUILD, "target/debug/dinero")
SHIM = os.path.join(BUILD, "simos.so")
WORKERS = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 4))
LEVEL = "exploration"


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(HERE, "shim/simos.c")
        if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
            subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-fvisibility=hidden", "-Wall", "-Wno-nonnull-compare",
                            "-o", SHIM + ".tmp", src], check=True)
            os.rename(SHIM + ".tmp", SHIM)
        cmd = ("test -f /opt/vp/env.sh && . /opt/vp/env.sh; cd %s && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 "
               "CARGO_INCREMENTAL=0 cargo build --offline --locked --bin dinero --target-dir %s/target" % (REPO, BUILD))
        p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode("utf-8", "replace")[-3000:])
            sys.exit("cannot build dinero")


def judge(mod, scn, ctx):
    """None, or the violation the scenario shows."""
    try:
        mod.check(scn, ctx)
        return None
    except Violation as v:
        return (v.cls, v.msg)
    except (out.Bad, UnicodeDecodeError) as e:
        return ("unreadable report", "the report cannot be read back: %s" % e)


def worker(prop, seed, tier, wid, nw, count, deadline, stop, q):
    try:
        mod = importlib.import_module("props." + prop.lower())
        ctx = Ctx(BINARY, SHIM)
        found, done, samples = None, 0, []
        kf = {}
        for i in range(wid, count, nw):
            if stop.is_set() or time.time() > deadline:
                break
            rng = random.Random(seed_of(seed, prop, i))
            scn = mod.make(rng, tier)
            v = judge(mod, scn, ctx)
            done += 1
            if len(samples) < 1 and i < 64:
                samples.append({"index": i, "scenario": scn})
            if v:
                k = known(prop, v[0])
                if k:
                    kf.setdefault(k, [0, i, scn, v])[0] += 1
                    continue
                found = (i, scn, v)
                stop.set()
                break
        q.put({"found": found, "done": done, "runs": ctx.runs, "faults": ctx.faults, "probes": ctx.probes,
               "traces": ctx.traces, "sim_ns": ctx.sim.sim_ns, "steps": ctx.steps, "clock_reads": ctx.clock_reads,
               "samples": samples, "known": {k: v[0] for k, v in kf.items()}})
    except BaseException:
        q.put({"error": traceback.format_exc()})


_KF = None


def findings():
    global _KF
    if _KF is None:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            _KF = json.load(f)
    return _KF


def known(prop, cls):
    for k in findings()["known"]:
        if k["property"] == prop and k["class"] == cls:
            return k["id"]
    return None


# -- minimisation -------------------------------------------------------------------
def walk_lists(x, path=()):
    if isinstance(x, list):
        if len(x):
            yield path
        for i, y in enumerate(x):
            yield from walk_lists(y, path + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from walk_lists(x[k], path + (k,))


ATOMIC = ("amt", "cost", "bal", "clock", "tty", "eintr", "alloc", "q")


def prune(x):
    """An include goes with the last of its files."""
    if isinstance(x, list):
        x[:] = [y for y in x if not (isinstance(y, dict) and "inc" in y and y.get("f") == [] and "*" not in y["inc"]
                                     and "?" not in y["inc"] and "[" not in y["inc"])]
        for y in x:
            prune(y)
    elif isinstance(x, dict):
        for y in x.values():
            prune(y)
    return x


def at(x, path):
    for p in path:
        x = x[p]
    return x


def minimise(mod, scn, cls, ctx, budget):
    """Drop what is not needed for the same violation."""
    keep = getattr(mod, "KEEP", ())
    t0 = time.time()
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        try:
            v = judge(mod, c, ctx)
        except HarnessError:
            return False
        except Exception:
            return False
        return v is not None and v[0] == cls

    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        if isinstance(scn.get("pert"), dict):
            for k in list(scn["pert"]):
                c = json.loads(json.dumps(scn))
                del c["pert"][k]
                if fails(c):
                    scn, changed = c, True
        for path in list(walk_lists(scn)):
            if any(p in keep or p in ATOMIC for p in path):
                continue
            try:
                n = len(at(scn, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = n
            while size >= 1 and time.time() - t0 < budget:
                i = 0
                while i < n:
                    c = json.loads(json.dumps(scn))
                    try:
                        del at(c, path)[i:i + size]
                    except (KeyError, IndexError, TypeError):
                        break
                    prune(c)
                    if fails(c):
                        scn, changed = c, True
                        try:
                            n = len(at(scn, path))
                        except (KeyError, IndexError, TypeError):
                            n = 0
                    else:
                        i += size
                size //= 2
    return scn, tries


class Digest:
    """Sees every run of a scenario; its value pins the whole execution."""

    def __init__(self):
        self.h = hashlib.sha256()

    def __call__(self, w, r):
        if r.hung:
            self.h.update(b"|hung|")   # how far it gets until the limit is not part of the execution
            return
        self.h.update(r.events_raw)
        self.h.update(b"|%d|%d|" % (r.code, r.sig))
        self.h.update(r.out)
        self.h.update(r.err)
        self.h.update(b"|%d|%d|%d" % (r.steps, r.nalloc, r.clock_end))


def execute(prop, scn):
    mod = importlib.import_module("props." + prop.lower())
    ctx = Ctx(BINARY, SHIM)
    d = Digest()
    ctx.sim.hook = d
    v = judge(mod, scn, ctx)
    return v, d.h.hexdigest()


def replay(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    build()
    v, dig = execute(r["property"], r["scenario"])
    if not quiet:
        if v:
            print("violation (%s): %s" % v)
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        else:
            print("no violation")
        print("execution %s, recorded %s%s" % (dig, r.get("execution"), "" if dig == r.get("execution") else " (differs)"))
    return 1 if v else 0


def report_known(prop):
    """Show each listed finding again on the current tree."""
    n = 0
    for k in findings()["known"]:
        if k["property"] != prop:
            continue
        v, _ = execute(prop, k["scenario"])
        if v and v[0] == k["class"]:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
            n += 1
        else:
            print("note: finding %s no longer shows (%s)" % (k["id"], v))
    return n


def main(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print("property %s seed %d tier %s" % (prop, seed, tier), flush=True)
    build()
    tb = time.time()
    mod = importlib.import_module("props." + prop.lower())
    count = mod.COUNT[0] if tier == "quick" else mod.COUNT[1]
    count = int(os.environ.get("SIM_COUNT", count))
    cap = 150 if tier == "quick" else 3000
    nknown = report_known(prop)
    stop, q = mp.Event(), mp.Queue()
    ps = [mp.Process(target=worker, args=(prop, seed, tier, w, WORKERS, count, tb + cap, stop, q)) for w in range(WORKERS)]
    for p in ps:
        p.start()
    res = []
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                sys.exit("a worker died")
    for p in ps:
        p.join()
    errs = [r["error"] for r in res if "error" in r]
    found = sorted([r["found"] for r in res if r.get("found")], key=lambda f: f[0])
    if errs and not found:
        print(errs[0])
        sys.exit(2)
    res = [r for r in res if "error" not in r]
    wall = time.time() - tb

    def merge(k):
        d = {}
        for r in res:
            for n, v in r[k].items():
                d[n] = d.get(n, 0) + v
        return dict(sorted(d.items()))

    traces = set().union(*[r["traces"] for r in res])
    runs = sum(r["runs"] for r in res)
    done = sum(r["done"] for r in res)
    status, path = 0, None
    if found:
        i, scn, v = found[0]
        print("scenario %d: %s: %s" % (i, v[0], v[1]), flush=True)
        ctx = Ctx(BINARY, SHIM)
        small, tries = minimise(mod, scn, v[0], ctx, 45)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-seed%d-%d.json" % (prop, seed, i))
        # The replay file has to show the same execution in a fresh process. A change may bring in nondeterminism of
        # its own (addresses, process numbers): then the file has to show the violation, if not the same execution.
        shown = None
        for scenario in (small, scn):
            for _ in range(8):
                v2, dig = execute(prop, scenario)
                if not v2:
                    continue
                with open(path, "w") as f:
                    json.dump({"property": prop, "verif_seed": seed, "index": i, "class": v2[0], "message": v2[1],
                               "execution": dig, "minimised_in": tries, "scenario": scenario, "original": scn}, f, indent=1,
                              ensure_ascii=True)
                p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE)
                if p.returncode == 1:
                    shown = v2, dig.encode() + b", recorded " + dig.encode() in p.stdout
                    break
            if shown:
                break
        if not shown:
            print("the violation does not show again: %s: %s" % v)
            sys.exit(2)
        v2, exact = shown
        if not exact:
            print("note: the replay shows the violation, but not in the same execution: the program under test has a source "
                  "of nondeterminism that the simulated OS does not control")
        print("minimised: %s" % v2[1])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    total = time.time() - t0
    samples = [s for r in res for s in r["samples"]][:3]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(traces),
            "rule": mod.RULE + " Counted as distinct: runs with different (event trace, standard output, exit status); "
                    "every run reads a journal or an init file.",
            "samples": samples,
            "scenarios": done,
            "scenarios_planned": count,
            "seeds_per_hour": int(done / wall * 3600) if wall else 0,
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_seconds": round(sum(r["sim_ns"] for r in res) / 1e9, 3),
            "simulated_steps": sum(r["steps"] for r in res),
            "clock_reads": sum(r["clock_reads"] for r in res),
            "faults_injected": merge("faults"),
            "probes": merge("probes"),
            "known_findings_hit": merge("known"),
            "real_components": ["the whole dinero executable built from /repo (argument parsing, init file, tokenizer, "
                                "includes and wildcards, ledger, automated transactions, prices, reports)",
                                "Rust standard library, all crates, libc string, math and formatting code"],
            "stub_components": ["file system, directories, symbolic links", "clock", "random source (hash keys)",
                                "terminal", "standard output and error", "allocation failures",
                                "other processes editing the files"],
        },
        "assumptions": ["single-threaded executable; every system call it makes goes through the simulated OS "
                        "(checked with strace when the shim was built)"] + list(getattr(mod, "ASSUME", ())),
        "wall_s": round(total, 2),
        "violations": 1 if found else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%d scenarios, %d simulated runs, %d distinct, %.1f s (%.1f s to build)" % (done, runs, len(traces), total, tb - t0))
    if done < count and not found:
        print("note: stopped by the time limit after %d of %d scenarios" % (done, count))
    sys.exit(status)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        build()
        sys.exit(0)
    if len(sys.argv) >= 2 and sys.argv[1] == "--determinism":
        import determinism
        sys.exit(determinism.main(sys.argv[2:]))
    if len(sys.argv) != 2:
        sys.exit(__doc__)
    main(sys.argv[1])
