#!/usr/bin/env python3
"""Builds the executor and checks that the tool chain is complete: symbolic execution of
a session in every configuration, and a planted counterexample that must be found and
must reproduce."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import Job


def main():
    print(sxlib.engine())
    jobs = [Job("h_smoke_v3", [a, p], must_reach=[1]) for a, p in ((0, 0), (1, 1), (2, 2))] + [Job("h_smoke_bad")]
    with sxlib.Tree(["smoke"]) as t:
        sxlib.run_jobs(t, jobs, progress=True)
        for j in jobs[:3]:
            # a defect of the code under test is for the checks to report
            if j.res["inconclusive"]:
                print("setup: %s: %s" % (j.label, j.res["inconclusive"]))
        v = jobs[3].res["violations"]
        assert len(v) == 1, "the planted counterexample was not found"
        ok, text = t.replay("h_smoke_bad", [], v[0]["stream"], "release")
        assert ok, text
    print("setup: ok")


if __name__ == "__main__":
    main()
