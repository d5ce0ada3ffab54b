import pylayer
from sxlib import Job

HARNESS = ["c06"]
CONF = [(0, 0), (1, 0), (3, 0), (3, 11), (3, 22)]
BASES = ["5", "300", "5.7", "127", "16383", "4294967295", "5.200", "0"]
EXPLANATION = (
    "Symbolic execution of a whole walk against an agent which may send anything: sub-identifiers of every size and value, any order, in "
    "and out of the subtree, any mixture of data, NULL and exception values are solver variables. An executable specification of the walk "
    "says which entries are yielded, when it ends and which OID the follow-up request must carry."
)
OUTSIDE = (
    "More replies or varbinds than listed; OIDs not in canonical form; values other than INTEGER as data (C02). Free choice of the library "
    "(not judged): an exception on a non-increasing OID instead of the end of the walk."
)


def BOUNDS(tier):
    th = tier != "quick"
    return {"replies": "GetNext 1..%d, GetBulk 1..%d" % ((6, 4) if th else (4, 3)), "varbinds per reply": "0..%d" % (6 if th else 4), "OIDs": "3..6 arcs, each of 1..5 octets", "bases": ", ".join("1.3.6.1." + b for b in BASES), "configurations": "v1 (GetNext), v2c, v3 noauth, MD5+DES, SHA-1+AES"}


def jobs(tier):
    th = tier != "quick"
    j = []
    seen = set()

    def add(conf, op, base, ns, shapes, kinds, names=0, head=0, must=(3,)):
        if conf[0] == 0 and op == 3:
            conf = (1, 0)
        s = sum(x * 100**i for i, x in enumerate(shapes))
        n = sum((x + 1) * 10**i for i, x in enumerate(ns))
        k = sum(x * 10**i for i, x in enumerate(kinds))
        a = [conf[0], conf[1], op, base, n, s, k, names, head]
        if tuple(a) in seen:
            return
        seen.add(tuple(a))
        label = "v%s %d %s from %s, replies of %s, shapes %s, kinds %s%s%s" % (["1", "2c", "", "3"][conf[0]], conf[1], ["getnext", "getbulk"][op - 2], BASES[base], "+".join(map(str, ns)), ",".join(map(str, shapes)), "".join(map(str, kinds)), ", names" if names else "", ", head %d" % head if head else "")
        j.append(Job("h_c06", a, must_reach=list(must), label=label))

    i = 0
    for base in range(8):
        for conf in CONF if th else [CONF[i % 5], (1, 0)]:
            # any shape, any kind of value
            add(conf, 2, base, [1, 1], [99, 99], [0, 0])
            add(conf, 3, base, [1, 1], [99, 99], [0, 0])
            add(conf, 3, base, [2], [99, 99], [0, 0])
            i += 1
        for k in (1, 2, 3, 11, 12, 13):
            if k % 10 <= 2 or th:
                add(CONF[i % 5], 3, base, [2, 1] if k % 10 < 3 else [3], [98, 98, 98] if th else [97, 98, 97], [0, 1, 1], 0, k)
                i += 1
        add(CONF[i % 5], 2, base, [1], [99], [0], 0, 1)
        add(CONF[i % 5], 2, base, [1], [99], [0], 0, 11)
    for conf in CONF:
        for op in (2, 3):
            for base in (0, 2) if not th else range(8):
                # no varbinds, at once or later
                add(conf, op, base, [0], [], [])
                add(conf, op, base, [1, 0], [2], [1])
                add(conf, op, base, [1, 1, 0], [98, 98], [1, 1])
    for base in (0, 2, 6):
        for conf in ((1, 0), CONF[base % 5]):
            add(conf, 2, base, [2], [98, 98], [0, 0], must=(2,))
            add(conf, 2, base, [1, 1, 1], [98, 98, 98], [0, 0, 0])
            add(conf, 2, base, [1] * 4, [97] * 4, [1] * 4, 1)
            add(conf, 3, base, [3], [98] * 3, [0] * 3)
            add(conf, 3, base, [2, 2], [98] * 4 if th else [97] * 4, [1, 0, 1, 0] if th else [1, 0, 1, 1])
            add(conf, 3, base, [1, 2, 1], [97] * 4, [0, 1, 0, 1])
            add(conf, 3, base, [4], [97] * 4, [0, 0, 0, 0] if th else [0, 1, 0, 1], 1)
            add(conf, 3, base, [3, 3], [9] * 6 if th else [2] * 6, [1] * 6, 0 if th else 1)
            add(conf, 3, base, [2, 2], [9] * 4, [1] * 4)
            add(conf, 3, base, [3, 3, 3], [9] * 9, [1] * 9, 1)
            if th:
                add(conf, 2, base, [1] * 6, [9] * 6, [0] * 6)
                add(conf, 3, base, [6, 2], [9] * 8, [1] * 8)
                add(conf, 3, base, [3, 3], [98] * 6, [1] * 6)
                add(conf, 3, base, [2, 1, 2, 1], [98] * 6, [0, 1, 0, 1, 0, 1])
                add(conf, 3, base, [4], [98] * 4, [0] * 4)
    return j


python_layer = pylayer.layer("C06")
