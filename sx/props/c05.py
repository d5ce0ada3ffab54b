import pylayer
from sxlib import Job

HARNESS = ["c05", "c06"]
CONF = [(1, 0), (0, 0), (3, 0), (3, 11), (3, 22)]
EXPLANATION = (
    "Symbolic execution of whole walks against an executable RFC 3416 agent over a MIB whose sub-identifiers (digit classes of several "
    "octet sizes) and values are solver variables, sorted by assumption: entries before, at, below and after the base in every "
    "arrangement. What is yielded is compared with the entries below the base."
)
OUTSIDE = "MIBs with more entries than listed, other shapes of OIDs; values other than INTEGER (C02)."


def BOUNDS(tier):
    th = tier != "quick"
    return {"MIB": "0..%d symbolic entries, up to %d concrete names" % (7 if th else 5, 60 if th else 24), "arcs": "1..3 below 1.3.6.1, of 1, 2, 3 and 5 octets", "max-repetitions": "1..40", "agent's cap": "1..30", "configurations": "v1, v2c, v3 noauth, MD5+DES, SHA-1+AES; send + receive apart and in one call"}


def jobs(tier):
    th = tier != "quick"
    j = []
    seen = set()

    def add(conf, op, sync, base, rep, cap, ending, mib, some=True):
        if conf[0] == 0 and op == 3:
            conf = (1, 0)
        code = lambda cs: sum((c + 1) * 10**i for i, c in enumerate(cs))
        a = [conf[0], conf[1], op, sync, code(base), rep, cap, ending, len(mib)] + [code(m) for m in mib]
        if tuple(a) in seen:
            return
        seen.add(tuple(a))
        show = lambda cs: ".".join("n" if c == 8 else str(c) for c in cs)
        label = "v%s %d %s%s from %s, max-repetitions %d, cap %d, ending %d, MIB of %d: %s" % (["1", "2c", "", "3"][conf[0]], conf[1], ["getnext", "getbulk"][op - 2], " in one call" if sync else "", show(base), rep, cap, ending, len(mib), " ".join(map(show, mib)))
        j.append(Job("h_c05", a, must_reach=[1, 2] if mib and some else [1], label=label))

    mibs = [
        [],
        [(0,)],
        [(0, 0)],
        [(0,), (0, 0)],
        [(0, 0), (0, 0)],
        [(0,), (0, 0), (0, 0)],
        [(0, 0), (0, 0), (0, 0)],
        [(0, 0), (0, 0, 0), (0, 0)],
        [(0, 0), (0, 1), (0, 2)],
        [(0, 2), (0, 3), (0, 4)],
        [(0, 5), (0, 6), (0, 7)],
        [(0,), (0, 0), (0, 0, 0), (0, 0)],
        [(0, 0), (0, 0), (0, 0), (0, 0)],
    ]
    mibs += [[(0, 0), (0, 2), (0, 3), (0, 6)], [(0, 0, 0), (0, 0), (0, 0), (0, 0, 0)], [(0, 0)] * 5, [(0,), (0, 0), (0, 0), (0,), (0, 0)], [(0, 1, 2), (0, 1, 3), (0, 3, 1)]]
    if th:
        mibs += [[(0, 0)] * 6, [(0, 0)] * 7, [(0, 0, 0)] * 5, [(0,), (0, 0), (0, 0, 0)] * 2, [(0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7)]]
    i = 0
    for m in mibs:
        some = any(len(x) > 1 for x in m)
        for n, conf in enumerate(CONF):
            if n > 2 and len(m) > 2 and not th:
                continue
            add(conf, 2, i % 2, (0,), 1, 1, 0, m, some)
            for rep, cap in [(1, 1), (2, 2), (3, 2), (10, 10), (2, 30), (40, 1), (3, 3), (10, 3)] if th else [[(1, 1), (2, 2), (3, 2)][i % 3], [(10, 10), (2, 30), (40, 1), (3, 3), (10, 3)][i % 5]]:
                add(conf, 3, (i // 2) % 2, (0,), rep, cap, i % 2 if rep < 10 else 0, m, some)
            i += 1
    # bases of other shapes
    for base, m in [((1,), [(1, 0), (1, 0)]), ((3,), [(3, 0), (3, 0)]), ((4,), [(4,), (4, 0), (4, 0)] if th else [(4, 0)]), ((5,), [(5, 0), (6, 0)]), ((7,), [(7, 0), (7, 0)]), ((0, 0), [(0, 0), (0, 0, 0), (0, 0, 0)]), ((0, 2), [(0, 2, 0), (0, 3, 0)]), ((0, 3), [(0, 2), (0, 3), (0, 3, 0)]), ((2,), [(2, 0), (3, 0)])]:
        for conf in CONF[:2] if not th else CONF:
            add(conf, 2, i % 2, base, 1, 1, 0, m)
            add(conf, 3, i % 2, base, 2, 2, i % 2, m)
            i += 1
    # long ones with given names 1.3.6.1.17.10...: classes 8 are concrete
    for k in (5, 8, 12, 24) + ((40, 60) if th else ()):
        for rep, cap in ((1, 1), (4, 4), (10, 7), (40, 30)):
            add(CONF[i % 5] if k < 12 else CONF[i % 3], 2 + (rep > 1), i % 2, (8,), rep, cap, 0, [(8, 8)] * k, False)
            i += 1
    return j


python_layer = pylayer.layer("C05")
