"""main.py PROP TIER: jobs of the property on the Python layer, in processes; JSON to stdout"""
import json
import multiprocessing
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def label(j):
    return "python %s(%s)" % (j[0].__name__[2:], ", ".join(str(x) for x in j[1]))


def one(a):
    prop, tier, n = a
    import harness
    import pysx

    j = harness.JOBS[prop](tier != "quick")[n]
    t = time.time()
    out = {"label": label(j), "viol": [], "inc": []}
    try:
        ex, viol, inc = pysx.explore(j[0], j[1], limit=120 if tier == "quick" else 900)
    except (Exception, pysx.Hung):
        # the modules do what the stand-ins do not know
        out["inc"] = [traceback.format_exc()[-700:]]
        return out
    out["inc"] = inc
    for k in ("paths", "cut", "queries", "sat", "unsat", "unknown", "solver_s", "forks", "checks", "checks_symbolic", "concretized"):
        out[k] = getattr(ex, k)
    out["wall"] = round(time.time() - t, 3)
    out["reached"] = ex.reached
    twins = 0
    for msg, values in viol:
        try:
            r = pysx.replay(j[0], j[1], values)
        except Exception:
            r = None
            out["inc"].append("replay: " + traceback.format_exc()[-400:])
        if r:
            out["viol"].append({"msg": msg, "values": values, "native": r})
        else:
            out["inc"].append("counterexample does not reproduce: %s %r" % (msg, values))
    if not viol:
        for s in ex.samples:
            r = pysx.replay(j[0], j[1], s)
            if r:
                out["inc"].append("concrete twin fails: %s %r" % (r, s))
            twins += 1
        if not inc:
            for w in j[2]:
                if not ex.reached.get(w):
                    out["inc"].append("vacuous, witness %s not reached" % w)
    out["twins"] = twins
    out["samples"] = ex.samples[:1]
    out["files"] = sorted(harness.FINDER.loaded)
    return out


if __name__ == "__main__":
    prop, tier = sys.argv[1:3]
    flt = sys.argv[3] if len(sys.argv) > 3 else ""
    import harness

    jobs = harness.JOBS[prop](tier != "quick")
    todo = [(prop, tier, n) for n in range(len(jobs)) if flt in label(jobs[n])]
    with multiprocessing.Pool(int(os.environ.get("W", "8")), maxtasksperchild=200) as p:
        res = p.map(one, todo, chunksize=1)
    json.dump(res, sys.stdout)
