"""The simulator is only worth something if one seed is one execution. Runs the first scenarios
of every property in several processes with different Python hash seeds, in opposite order and
under load, and compares everything that was observed: event log, output, status, number of
allocations, clock."""
import json, os, random, subprocess, sys


def digests(prop, n, back):
    import check, importlib
    from lib import seed_of
    mod = importlib.import_module("props." + prop.lower())
    r = {}
    for i in (reversed(range(n)) if back else range(n)):
        scn = mod.make(random.Random(seed_of(os.environ.get("VERIF_SEED", "1"), prop, i)), "quick")
        v, d = check.execute(prop, json.loads(json.dumps(scn)) if back else scn)
        r[str(i)] = [v[0] if v else None, d]
    return r


def main(args):
    if args and args[0] == "--part":
        json.dump(digests(args[1], int(args[2]), args[3] == "1"), sys.stdout)
        return 0
    import check
    n = int(args[0]) if args else 150
    check.build()
    with open(os.path.join(check.VERIF, "MANIFEST.json")) as f:
        props = [c["property"] for c in json.load(f)["checks"]]
    bad = 0
    for p in props:
        me = [sys.executable, os.path.join(check.HERE, "check.py"), "--determinism", "--part", p, str(n)]
        jobs = [subprocess.Popen(me + [str(b)], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(h)))
                for b, h in ((0, 0), (1, 1), (0, 12345), (1, 999))]
        rs = [json.loads(j.communicate()[0]) for j in jobs]
        diff = [i for i in rs[0] if any(r[i] != rs[0][i] for r in rs)]
        print("%s: %d scenarios run 4 times, %d differ %s" % (p, n, len(diff), diff[:5]), flush=True)
        bad += len(diff)
    return 1 if bad else 0
