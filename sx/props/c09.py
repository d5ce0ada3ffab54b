from sxlib import Job

HARNESS = ["c09"]
EXPLANATION = (
    "Symbolic execution of session creation and every sending call with keys, user name, engine id, ids, boots and time as solver "
    "variables; hash functions are uninterpreted functions of the whole hashed message, so a wrong key, range, order or padding yields a "
    "different application and the solver finds a digest assignment that exposes it. The MAC is recomputed over the datagram by an "
    "independent HMAC-96 with the field zeroed at the place an independent reader finds."
)
OUTSIDE = "Passwords as keys (C12 relates them to master keys); MD5 and SHA-1 themselves (stand-ins: uninterpreted functions)."
ASSUMPTIONS = ["md-5 and sha1 compute MD5 and SHA-1 (replaced by uninterpreted functions)"]


def BOUNDS(tier):
    return {"operations": "get, get_many of 1..n OIDs, getnext, getbulk, refresh", "sizes": "user 0..200, engine id 0..128 octets, OIDs up to %d" % (150 if tier != "quick" else 60), "boots, time": "all of 0..2^31-1 in every encoded size", "history": "none; Report; other session, junk and oversized requests before; key change; earlier requests"}


def jobs(tier):
    th = tier != "quick"
    j = []
    for sec in (0, 10, 20, 11, 12, 21, 22):
        a, p = divmod(sec, 10)
        w = [2] if a else [1]
        for op in range(5):
            for u, e in [(4, 9), (0, 5), (32, 32)] + ([(1, 12), (100, 9), (127, 5), (128, 5), (200, 17), (4, 100), (4, 127), (4, 128), (20, 80)] if op in (0, 1) or th else []):
                j.append(Job("h_c09", [a, p, op, u, e, 2 - (u + e + op) % 2 if a else 2, 2, 0], must_reach=w, label="%02d op %d: user %d, engine id %d" % (sec, op, u, e)))
            for h in (1, 2, 3, 4):
                for k in (1, 2):
                    if (k == 1 and (not a or h == 1)):
                        continue
                    j.append(Job("h_c09", [a, p, op, 4, 9, k, 2, h], must_reach=w, label="%02d op %d: history %d, %s key" % (sec, op, h, ["", "master", "localized"][k])))
        for n in [1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 60] + ([100, 150] if th else []):
            j.append(Job("h_c09", [a, p, 1, 4, 9, 2, n, 0], must_reach=w, label="%02d get_many: %d OIDs" % (sec, n)))
    return j
