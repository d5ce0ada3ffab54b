"""Python part of a property: sx/py in the interpreter which has z3"""
import json
import os
import subprocess

from sxlib import CheckError

HERE = os.path.dirname(os.path.abspath(__file__))


def layer(prop):
    def run(tier, seed, ev):
        p = subprocess.run(["python3-vt", os.path.join(HERE, "py", "main.py"), prop, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700 if tier == "quick" else 6 * 3600, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if p.returncode:
            raise CheckError("Python layer: " + p.stderr[-1500:])
        res = json.loads(p.stdout)
        viol, inc = [], []
        agg = {k: 0 for k in ("paths", "cut", "queries", "sat", "unsat", "unknown", "solver_s", "forks", "checks", "checks_symbolic", "concretized", "twins")}
        files = set()
        for r in res:
            for k in agg:
                agg[k] += r.get(k, 0)
            files |= set(r.get("files", ()))
            for v in r["viol"]:
                values = ";".join("%s=%s" % x for x in sorted(v["values"].items()))
                viol.append({"label": r["label"], "kind": "check", "msg": v["msg"], "inputs": values, "stream": "", "stack": "", "native": "concrete run of the modules: " + v["native"], "layer": "python", "values": v["values"]})
            if not r["viol"]:
                inc += ["%s: %s" % (r["label"], x) for x in r["inc"]]
        ev["python_layer"] = {
            "modules_executed": sorted(files),
            "jobs": [{"label": r["label"], "paths": r.get("paths"), "queries": r.get("queries"), "checks": r.get("checks"), "wall_s": r.get("wall"), "reached": r.get("reached")} for r in res],
            "paths": agg["paths"],
            "paths_cut_by_assumption": agg["cut"],
            "queries_discharged": agg["queries"],
            "queries_sat": agg["sat"],
            "queries_unsat": agg["unsat"],
            "queries_unknown": agg["unknown"],
            "solver_s": round(agg["solver_s"], 3),
            "assertions_evaluated": agg["checks"],
            "assertions_decided_by_solver": agg["checks_symbolic"],
            "values_concretized": agg["concretized"],
            "concrete_twins": agg["twins"],
            "samples": [{"job": r["label"], "input": r["samples"]} for r in res if r.get("samples")][:6],
        }
        ev["states"] = ev.get("states", 0) + agg["paths"]
        ev["transitions"] = ev.get("transitions", 0) + agg["forks"]
        ev["queries_discharged"] = ev.get("queries_discharged", 0) + agg["queries"]
        ev["solver_s"] = round(ev.get("solver_s", 0.0) + agg["solver_s"], 3)
        ev["traces_validated_against_impl"] = ev.get("traces_validated_against_impl", 0) + agg["twins"]
        ev.setdefault("functions", [])
        ev["functions"] = sorted(set(ev["functions"]) | files)
        if not ev.get("samples"):
            ev["samples"] = ev["python_layer"]["samples"]
        return viol, inc

    return run
