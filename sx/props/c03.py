import pylayer
from sxlib import Job
from props import digits

HARNESS = ["c03"]
OPS = ["get", "get_many", "getnext", "getbulk", "refresh"]
H = ["none", "long request answered", "malformed reply", "no reply", "oversized request", "another session", "refused text", "late reply", "send fails", "unanswered requests"]
EXPLANATION = (
    "Symbolic execution of session creation and each request, after each kind of history: community or user, engine id, keys, ids, the "
    "digits of one OID (classes which together are all of 0..2^32-1), max-repetitions and the contents of earlier replies are solver "
    "variables. The datagram handed to the socket is read by a strict independent decoder (definite, minimal lengths and INTEGERs, "
    "nothing left over), after independent decryption where there is privacy, and compared field by field."
)
OUTSIDE = "Communities and users beyond ASCII; max-repetitions below 1 or above 2^31-1; getbulk of a v1 session; requests near the buffer's size (C17)."


def BOUNDS(tier):
    th = tier != "quick"
    return {"configurations": "v1, v2c, v3 x noauth, MD5, SHA-1 x none, DES, AES", "requests": ", ".join(OPS), "OIDs": "1..%d per request, 5..133 arcs, one arc 0..2^32-1" % (128 if th else 60), "community": "0..%d octets" % (300 if th else 129), "user, engine id": "0..%d octets" % (64 if th else 32), "max-repetitions": "1..2^31-1", "history": ", ".join(H)}


def jobs(tier):
    th = tier != "quick"
    j = []
    confs = [(0, 0), (1, 0), (3, 0), (3, 10), (3, 20), (3, 11), (3, 12), (3, 21), (3, 22)]
    cls = digits.arcs()

    def add(conf, op, size, eng, h, k, shape, at, c, nrep):
        ver, sec = conf
        if ver == 0 and op == 3 or ver != 3 and op == 4:
            return
        if op != 1:
            k, at = 1, min(at, 0)
        name = "v%s op %s: name of %d, engine id of %d, history %s, %d OIDs of shape %d, %s%s" % (["1", "2c", "", "3 %d" % sec][ver], OPS[op], size, eng, H[h], k, shape, "OID %d with %s" % (at, digits.name(c)) if at >= 0 else "concrete OIDs", ", max-repetitions of %d octets" % nrep if op == 3 else "")
        j.append(Job("h_c03", [ver, sec, op, size, eng, h, k, shape, at & 0xFFFFFFFF] + digits.args(c) + [nrep], must_reach=[1], label=name))

    i = 0
    for n, conf in enumerate(confs):
        for op in range(5):
            for h in range(10):
                for r in range(2 if th else 1):
                    add(conf, op, (6, 1, 17)[i % 3], (9, 5, 12)[i % 3], h, (1, 2, 5, 3)[i % 4], (0, 1, 4)[i % 3], i % 2, cls[(i * 7) % len(cls)], 1 + i % 4)
                    i += 1
    for c in cls:
        for op in range(4) if th else ([i % 4]):
            add(confs[(1, 0, 1, 3)[i % 4] if not th else i % 9], op, 6, 9, 0, 1 + i % 3, i % 2, i % 3, c, 1 + i % 4)
            i += 1
    # in every octet size each
    for nrep in range(1, 5):
        for conf in confs[1:]:
            add(conf, 3, 6, 9, 0, 1, 0, -1, cls[0], nrep)
    for size in range(0, 301 if th else 130):
        if th or size < 34 or size > 120:
            add(confs[size % 2], (0, 1, 2)[size % 3], size, 9, 0, 2, 0, 0, cls[size % len(cls)], 1)
            if size < 33:
                add(confs[2 + size % 7], size % 5, size, 9, 0, 2, 0, 0, cls[size % len(cls)], 1)
    for e in range(0, 65 if th else 33):
        add(confs[2 + e % 7] if e else confs[2], e % 5, 4, e, 0, 2, 0, 0, cls[e % len(cls)], 1)
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 25, 32, 33, 60) + ((64, 100, 127, 128) if th else ()):
        for shape in (0, 4):
            for conf in confs if th else (confs[k % 2], confs[2 + k % 7]):
                add(conf, 1, 6, 9, 0, k, shape, k // 2, cls[k % len(cls)], 1)
    for shape in (2, 3):
        for k in (1, 2, 3, 5):
            for m, conf in enumerate(confs):
                if th or (m + k) % 3 == 0 or k == 1:
                    add(conf, (k + m) % 4 if k == 1 else 1, 6, 9, 0, k, shape, 0, cls[(k + m) % len(cls)], 2)
    return j


python_layer = pylayer.layer("C03")
