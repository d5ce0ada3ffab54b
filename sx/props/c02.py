import pylayer
from sxlib import Job
from props import digits
from props.c01 import OPS, SECS

HARNESS = ["c02"]
TYPES = ["INTEGER", "Counter32", "Gauge32", "TimeTicks", "UInteger32", "Counter64", "OCTET STRING", "Opaque", "ObjectDescriptor", "IpAddress", "OBJECT IDENTIFIER", "BOOLEAN", "NULL", "special REAL", "binary REAL", "decimal REAL"]
EXPLANATION = (
    "Symbolic execution of the compiled receive path from recv_get / recv_get_many / recv_get_next / recv_get_bulk and the sync calls. Replies come from an independent BER encoder in the harness; "
    "the content octets of the value (or the arcs of the name) are symbolic, and the Python value must equal what X.690 / RFC 2578 say, computed by integer arithmetic in the harness."
)
OUTSIDE = (
    "Mantissas of REAL above 2^53, sub-normal results which need rounding, decimal REAL with more digits. "
    "Unsigned values without their leading zero octet may be refused, but not delivered as another number."
)
ASSUMPTIONS = ["digests and ciphers are uninterpreted functions", "request-id and msgID take 4 octets", "Python objects are created by a stand-in of pyo3 which keeps the value it is given"]


def BOUNDS(tier):
    th = tier != "quick"
    return {
        "values": "INTEGER of 1..8 octets, Counter32/Gauge32/TimeTicks/UInteger32 of 1..5, Counter64 of 1..9, strings of 0..16 octets and around 127/128, 255/256, 1000; every IpAddress, BOOLEAN, special REAL",
        "binary REAL": "bases 2, 8, 16, all scale factors, exponents of 1..8 octets (all 1-octet ones, boundaries of the others), mantissas of up to %d octets" % (6 if th else 3),
        "decimal REAL": "NR1, NR2, NR3 of up to %d arbitrary digits, any sign, both marks, leading spaces" % (5 if th else 4),
        "names": "first arc 0..2, second 0..39, one arbitrary arc 0..2^32-1",
        "lists": "1, 2, 5 and 40 varbinds, the value at every position",
        "lengths": "every header in short and long form of 1..4 octets",
        "configurations": "v1, v2c, v3 with every digest and cipher; get, get_many, getnext, getbulk",
    }


def cfg(ver, sec):
    return "v%d%s" % (ver + 1 if ver < 3 else 3, " %02d" % sec if ver == 3 else "")


def jobs(tier):
    th = tier != "quick"
    j = []
    ops = [x for x in OPS.items() if x[1] < 4]

    def val(ver, sec, op, kind, n, pos=0, count=1, form=0, real=(), what="", reach=True):
        j.append(Job("h_c02_value", [ver, sec, op, kind, n, pos, count, form] + list(real), must_reach=[1] if reach else [], label="%s op %d: %s of %d%s, %d of %d, form %d" % (cfg(ver, sec), op, TYPES[kind], n, what, pos + 1, count, form)))

    sizes = {0: range(1, 9), 1: range(1, 6), 2: range(1, 6), 3: range(1, 6), 4: range(1, 6), 5: range(1, 10), 6: (0, 1, 2, 16, 127, 128, 255, 256, 1000), 7: (0, 1, 7, 127, 128), 8: (0, 1, 5, 255, 256), 9: (0, 1), 10: (0, 1, 3, 5, 7), 11: (1,), 12: (0,), 13: range(5)}
    for kind, ns in sizes.items():
        for n in ns:
            for op in range(4):
                # NULL ends a walk
                if kind == 12 and op > 1:
                    continue
                val(1, 0, op, kind, n)
            if kind != 5:
                val(0, 0, n % 3 if kind != 12 else 0, kind, n)
    # positions
    for kind in (0, 1, 5, 6, 9, 10, 11, 12, 13):
        n = {0: 8, 1: 5, 5: 9, 6: 3, 9: 0, 10: 3, 11: 1, 12: 0, 13: 1}[kind]
        for op in (1, 3):
            if kind == 12 and op == 3:
                continue
            for pos, count in ((0, 2), (1, 2), (2, 5), (4, 5)) + (((0, 40), (17, 40), (39, 40)) if kind in (0, 6) or th else ()):
                val(1, 0, op, kind, n, pos, count)
    # security
    for sec in SECS.values():
        for kind, n in ((0, 8), (0, 3), (5, 9), (1, 5), (6, 2), (6, 17), (6, 128), (11, 1), (13, 1), (9, 0)):
            if sec % 10 == 0 or kind in (0, 6, 5) or th:
                val(3, sec, kind % 4 if kind != 0 else n % 4, kind, n)
        for op in (1, 3):
            val(3, sec, op, 6, 5, 1, 3)
    # REAL
    for base in (0, 1, 2):
        for scale in range(4):
            for m in (1, 2, 3, 6) if th else (1, 3):
                val(1, 0, scale, 14, m, real=(base, scale, 1, 1000000, 0), what=" (base %d, scale %d)" % (base, scale))
    for es in range(2, 9):
        for e in (0, 1, -1, 127, 128, -128, 255, 256, -256, 500, -500):
            val(1, 0, 0, 14, 2, real=(0, 0, es, e & (2**64 - 1), 0), what=" (exponent %d in %d octets)" % (e, es))
    for k, kind in ((-1074, 1), (-1073, 1), (-1060, 1), (-1040, 1), (-1022, 0), (-1021, 0), (1000, 0), (1007, 0), (1024, 2), (1500, 2), (5000, 2), (30000, 2), (-1100, 3), (-5000, 3), (-30000, 3)):
        val(1, 0, 0, 14, 2, real=(0, 0, 2, k & (2**64 - 1), kind), what=" (exponent %d)" % k)
    for k, kind in ((2**31, 2), (2**62, 2), (-(2**31), 3), (-(2**62), 3)):
        val(1, 0, 0, 14, 1, real=(2, 3, 8, k & (2**64 - 1), kind), what=" (exponent %d)" % k)
    for form in range(7):
        for nd in (1, 2, 3, 4, 5) if th else (1, 2, 3, 4):
            if form in (2, 3) and nd < 2:
                continue
            val(1, 0, form % 4, 15, form, real=(nd,), what=" (%d digits)" % nd)
    # names
    for op in (1, 2, 3):
        for root in (0, 1, 2) if op == 1 else (1,):
            for mid in (0, 1):
                for n, c in enumerate(digits.arcs()):
                    if not th and (op != 1 or root != 1 or mid) and n % 7 != (op + root * 2 + mid) % 7:
                        continue
                    j.append(Job("h_c02_name", [1, op, root, mid] + digits.args(c), must_reach=[1], label="v2c op %d: name with the arc %s, root %d, form %d" % (op, digits.name(c), root, mid)))
    # length forms
    for ver, sec, count in ((0, 0, 14), (1, 0, 14), (3, 0, 29), (3, 21, 14), (3, 20, 29), (3, 12, 14)):
        for op in range(4):
            if ver == 0 and op == 3:
                continue
            for at in range(count - (3 if op in (0, 2) else 0)):
                for form in (1, 2, 3, 4) if th else ((1, 2, 4) if op == 1 else (1 + at % 3,)):
                    j.append(Job("h_c02_form", [ver, sec, op, at, form, 3], must_reach=[1], label="%s op %d: header %d has %d length octets" % (cfg(ver, sec), op, at, form)))
    for n in (127, 128, 200, 255, 256, 300):
        for at in (0, 6, 8):
            j.append(Job("h_c02_form", [1, 0, 0, at, 2 if n < 300 else 3, n], must_reach=[1], label="v2c: string of %d octets, header %d" % (n, at)))
    for ver, sec in ((0, 0), (1, 0)) + tuple((3, s) for s in SECS.values()):
        for op in range(4):
            if ver == 0 and op == 3:
                continue
            j.append(Job("h_c02_sync", [ver, sec, op, 4], must_reach=[1], label="%s op %d: sync call" % (cfg(ver, sec), op)))
    return j


python_layer = pylayer.layer("C02")
