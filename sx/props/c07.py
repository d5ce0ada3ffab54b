import pylayer
from sxlib import Job

HARNESS = ["c07"]
EXPLANATION = (
    "Symbolic execution of the receive path of get and get_many on replies with 0..n varbinds; the kind of every value (INTEGER, NULL, "
    "noSuchObject, noSuchInstance, endOfMibView, OCTET STRING, Counter32, empty string, zero), its content and the last arc of each name "
    "are solver variables, so duplicates are among them. The returned Python value or the raised class is compared with the specification. "
    "The error-status and error-index fields of a reply are covered by C02 / C05."
)
OUTSIDE = "More varbinds than listed; of several values for one OID any is accepted."


def BOUNDS(tier):
    return {"varbinds": "0..%d with all kinds mixed" % (3 if tier == "quick" else 4), "configurations": "v1, v2c, v3 {no auth, MD5, SHA-1} x {none, DES, AES}", "calls": "non-blocking (async client) and blocking (sync client)"}


def jobs(tier):
    th = tier != "quick"
    j = []
    cfgs = [(0, 0), (1, 0), (3, 0), (3, 10), (3, 20), (3, 11), (3, 12), (3, 21), (3, 22)]
    for ver, sec in cfgs:
        for sync in (0, 1):
            name = "v%d %02d %s" % (ver + 1 if ver < 3 else 3, sec, "sync" if sync else "async")
            crypt = sec % 10 != 0
            for op in (0, 1):
                for n in range(0, (5 if th and not crypt else 4)):
                    if crypt and n > (2 if th else 1):
                        continue
                    if n > 2 and sec and not th:
                        continue
                    w = [[1], [2, 3, 4], [5], [5], [5]][n] if op == 0 else [6]
                    j.append(Job("h_c07_reply", [ver, sec, op, n, sync, 0], must_reach=w, label="%s %s: %d varbinds" % (name, ["get", "get_many"][op], n)))
                j.append(Job("h_c07_silence", [ver, sec, op, sync], must_reach=[1], label="%s %s: silence" % (name, ["get", "get_many"][op])))
                if ver == 3:
                    for n in (0, 1, 2):
                        j.append(Job("h_c07_report", [sec, op, n, sync], must_reach=[1], label="%s %s: Report with %d varbinds" % (name, ["get", "get_many"][op], n)))
    return j


python_layer = pylayer.layer("C07")
