#!/usr/bin/env python3
"""check.py <property>: decides one property, writes evidence/<property>.json.
Exit 0: held on everything explored. 1: VIOLATION line(s). 3: the check gave no answer."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib  # noqa: E402
from sxlib import CheckError, VERIF  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.json")


def short(fn):
    """Readable name of a mangled function of the crate under test, else None"""
    if fn.startswith("h_") or "5verif" in fn:
        return None
    m = re.match(r"_ZN(.*)E$", fn)
    if m:
        parts, s = [], m.group(1)
        while s:
            k = re.match(r"(\d+)", s)
            if not k:
                break
            n = int(k.group(1))
            s = s[k.end():]
            parts.append(s[:n])
            s = s[n:]
        if parts and re.match(r"17h[0-9a-f]{16}", parts[-1]) is None and len(parts[-1]) == 17:
            parts = parts[:-1]
        name = "::".join(parts).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::")
        return name if "gufo_snmp" in name else None
    if "gufo_snmp" in fn:
        toks = re.findall(r"\d+(_?[A-Za-z][A-Za-z0-9_]*)", fn)
        out = []
        pos = 0
        while pos < len(fn):
            k = re.compile(r"(\d+)_?").match(fn, pos)
            if k and int(k.group(1)) and k.end() + int(k.group(1)) <= len(fn) and re.match(r"[A-Za-z_]", fn[k.end():k.end() + 1] or "-"):
                out.append(fn[k.end():k.end() + int(k.group(1))])
                pos = k.end() + int(k.group(1))
            else:
                pos += 1
        return "::".join(out) if out else (toks[-1] if toks else fn)
    return None


def solve_rust(prop, spec, tier, seed, ev):
    """Symbolic execution of the compiled crate. -> list of violations"""
    jobs = spec.jobs(tier)
    viols = []
    with sxlib.Tree(spec.HARNESS) as tree:
        box = {}

        def nat():
            try:
                tree.native("release")
            except Exception as e:  # reported where it is needed
                box["err"] = e

        tree.build_ir()
        t = threading.Thread(target=nat)
        t.start()
        jobs = sxlib.run_jobs(tree, jobs, default_time=getattr(spec, "TIME", {}).get(tier, 600 if tier == "quick" else 3000), progress=os.environ.get("SX_PROGRESS", "1") == "1")
        t.join()
        if "err" in box:
            raise box["err"]
        agg = {k: 0 for k in ("paths", "ended_early", "instructions", "forks", "checks", "checks_symbolic", "queries", "sat", "unsat", "unknown", "cache_hits")}
        solver = 0.0
        maxq = 0.0
        fns = set()
        inconclusive = []
        validated = mismatched = 0
        samples = []
        for j in jobs:
            r = j.res
            for k in agg:
                agg[k] += r[k]
            solver += r["solver_s"]
            maxq = max(maxq, r["max_query_s"])
            for f in r["functions"]:
                s = short(f)
                if s:
                    fns.add(s)
            for v in r["violations"]:
                v["job"] = j
                viols.append(v)
            if r["inconclusive"] and not r["violations"]:
                inconclusive.append("%s: %s" % (j.label, r["inconclusive"]))
            if not r["violations"]:
                for w in j.must_reach:
                    if not r["reached"].get(str(w)):
                        inconclusive.append("%s: vacuous, witness %s not reached" % (j.label, w))
        confirmed = []
        # one counterexample per failing statement and job suffices; few of each are replayed
        seen = {}
        known = load_known()
        for v in viols:
            key = (v["kind"], v["msg"])
            v["label"] = v["job"].label
            if match_known(prop, v, known) is None:
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 3:
                    continue
            c = confirm(tree, v)
            if c:
                confirmed.append(c)
            else:
                inconclusive.append("%s: counterexample does not reproduce: %s %s inputs %s [%s]" % (v["job"].label, v["kind"], v["msg"], v["inputs"][:300], v.get("native", "")))
        # concrete twins of explored paths, executed by the natively compiled code
        bad = []
        budget = 64 if tier == "quick" else 400
        per = max(1, budget // max(1, len(jobs)))
        for j in jobs:
            for k, s in enumerate(j.res["samples"][-per:]):
                rep = native_obs(tree, j, s)
                if rep == s["obs"]:
                    validated += 1
                else:
                    mismatched += 1
                    bad.append("%s: executor saw %r, native code %r" % (j.label, s["obs"][:300], rep[:300]))
                if k == 0 and len(samples) < 12:
                    samples.append({"job": j.label, "input": s["stream"][:400], "observed": s["obs"][:300]})
        if bad and not confirmed:
            inconclusive.append("native twin differs: " + bad[0])
        ev["build_s"] = round(tree.build_s, 2)
    ev["jobs"] = [{"label": j.label, "paths": j.res["paths"], "ended_early": j.res["ended_early"], "checks": j.res["checks"], "checks_symbolic": j.res["checks_symbolic"], "queries": j.res["queries"], "solver_s": j.res["solver_s"], "wall_s": j.res["wall_s"], "reached": j.res["reached"]} for j in jobs]
    ev.update({"functions": sorted(fns), "queries_discharged": agg["queries"], "queries_sat": agg["sat"], "queries_unsat": agg["unsat"], "queries_unknown": agg["unknown"], "query_cache_hits": agg["cache_hits"], "solver_s": round(solver, 3), "longest_query_s": round(maxq, 3), "assertions_evaluated": agg["checks"], "assertions_decided_by_solver": agg["checks_symbolic"], "paths_cut_by_assumption_or_end": agg["ended_early"]})
    ev["states"] = agg["paths"]
    ev["transitions"] = agg["instructions"]
    ev["branch_forks"] = agg["forks"]
    ev["traces_validated_against_impl"] = validated
    ev["traces_mismatched"] = mismatched
    ev["samples"] = samples
    return confirmed, inconclusive


def native_obs(tree, j, s):
    so = tree.native("release")
    code = sxlib_replay_code(so, j)
    try:
        p = subprocess.run([sys.executable, "-c", code], input=s["stream"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout"
    if p.returncode:
        return "exit %d: %s" % (p.returncode, p.stderr[-300:])
    return "".join(x[7:] + ";" for x in p.stderr.splitlines() if x.startswith("SX-OBS "))


def sxlib_replay_code(so, j):
    a = j.args
    return (
        "import ctypes,sys\nd=bytes.fromhex(sys.stdin.read().strip())\nl=ctypes.CDLL(%r)\na=(ctypes.c_uint64*%d)(*%r)\n"
        "l.sx_replay_load(d,ctypes.c_size_t(len(d)),a,ctypes.c_size_t(%d))\nl.%s()\n" % (so, max(1, len(a)), list(a), len(a), j.entry)
    )


def confirm(tree, v):
    """Replay a counterexample against the natively compiled code"""
    j = v["job"]
    profiles = ["release", "dev"]
    if v["kind"] in ("memory", "uninit"):
        profiles.append("asan")
    notes = []
    for p in profiles:
        try:
            ok, text = tree.replay(j.entry, j.args, v["stream"], p)
        except CheckError as e:
            ok, text = False, str(e)[-300:]
        notes.append("%s: %s" % (p, text))
        if ok:
            v["native"] = "%s build: %s" % (p, text)
            return v
    if v["kind"] == "uninit":
        # reading memory that was never written has no native symptom of its own
        v["native"] = "uninitialised read: no native symptom; decided on the IR alone"
        return v
    v["native"] = "; ".join(notes)
    return None


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def match_known(prop, v, known):
    for k in known:
        if k.get("property") != prop or k.get("status") != "known":
            continue
        m = k["match"]
        if all(str(m[x]) in str(v.get(x, "")) if x != "job" else v["label"].startswith(m[x]) for x in m):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = importlib.import_module("props." + prop.lower())
    ev = {}
    violations, inconclusive = [], []
    if getattr(spec, "HARNESS", None):
        v, i = solve_rust(prop, spec, tier, seed, ev)
        for x in v:
            violations.append({"label": x["job"].label, "entry": x["job"].entry, "args": x["job"].args, "kind": x["kind"], "msg": x["msg"], "inputs": x["inputs"], "stream": x["stream"], "stack": x["stack"], "native": x["native"], "layer": "rust", "harness": spec.HARNESS})
        inconclusive += i
    if hasattr(spec, "python_layer"):
        v, i = spec.python_layer(tier, seed, ev)
        violations += v
        inconclusive += i
    known = load_known()
    new = []
    for v in violations:
        k = match_known(prop, v, known)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            new.append(v)
    ev["explanation"] = spec.EXPLANATION
    ev["bounds"] = spec.BOUNDS(tier) if callable(spec.BOUNDS) else spec.BOUNDS
    ev["outside_the_claim"] = getattr(spec, "OUTSIDE", "")
    ev.setdefault("samples", [])
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": ev,
        "assumptions": getattr(spec, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if inconclusive:
        ev["inconclusive"] = inconclusive[:20]
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for x in inconclusive[:20]:
        print("INCONCLUSIVE: " + x)
    if new:
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(new):
            path = os.path.join(rd, "%s.%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s: %s: %s\n    inputs: %s\n    native: %s" % (v["label"], v["kind"], v["msg"], v["inputs"][:500], v["native"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if inconclusive:
        print("%s: no answer" % prop)
        return 3
    print("%s: held: %d paths, %d queries (%.1f s solver), %d native twins agree, %.1f s" % (prop, ev.get("states", 0), ev.get("queries_discharged", 0), ev.get("solver_s", 0.0), ev.get("traces_validated_against_impl", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
