from sxlib import Job
from props.c01 import SECS
from props.c02 import cfg

HARNESS = ["c02", "c17"]
ANY = 2**63
L = {"max_steps": 4000000000}
KINDS = ["long OID", "many OIDs", "long name", "long engine id"]
OPN = ["get", "get_many", "getnext", "getbulk", "refresh"]


EXPLANATION = (
    "Symbolic execution of session histories (a request, the request of the size in question, another request; past the limit the oversized one again and what fits again) with the contents of names, "
    "keys and ids as solver variables; sizes step octet by octet. The expected size comes from X.690 arithmetic: up to 4080 octets the datagram must be complete for an independent strict reader "
    "(every length field minimal and exact, MAC and cipher included) and contain only octets which were written; above it SnmpEncodeError and no datagram. Buffer operations are run against a shadow model "
    "over all sequences within the bound, sizes around what is free, contents and encoded lengths symbolic; the executor reports any access outside of the object. Replies of many sizes are delivered whole or not at all."
)
OUTSIDE = (
    "push_tag_len with a length of 65536 and more (only stays in bounds; data of this size cannot be in the buffer), set_bookmark beyond the data, as_slice with more than the buffer holds: preconditions of internal calls. "
    "AES requests within 16 octets of the limit may go either way (the code may pad). Sequences of more buffer operations than bounded."
)
ASSUMPTIONS = ["digests and ciphers are uninterpreted functions", "request-id and msgID take 4 octets", "msgMaxSize takes 2 octets of content", "the n-th distinct block encrypts to the octets of n followed by arbitrary ones"]


def BOUNDS(tier):
    th = tier != "quick"
    return {
        "requests": "v1, v2c, v3 with every digest and cipher; total sizes %s; one long OID, many OIDs, long community or user name, engine ids of 1..64 octets; get, get_many, getnext, getbulk, refresh; send and sync calls" % ("80..360 and 4040..4240 octet by octet (encrypted ones near the limit by 1..4), samples up to 65580"),
        "buffer operations": "all sequences of %d operations out of 10 with 1..17 sizes each, and those of 4 operations the first of which leave 0..8 octets free" % (3 if th else 2),
        "replies": "values of 0..40, 110..140, 240..264, 3900..4050 octets and beyond the buffer",
    }


def jobs(tier):
    th = tier != "quick"
    j = []

    def size(ver, sec, op, kind, at, n, step=1, engine=0, whole=0, reach=()):
        j.append(Job("h_c17_size", [ver, sec, op, kind, at, n, step, engine, whole], must_reach=list(reach), label="%s %s, %s, %d..%d by %d%s%s" % (cfg(ver, sec), OPN[op], KINDS[kind], at, at + (n - 1) * step, step, ", engine id of %d" % engine if engine else "", ", sync call" if whole else ""), **L))

    i = 0
    for ver, sec in [(0, 0), (1, 0)] + [(3, s) for s in SECS.values()]:
        for kind in (0, 1, 2):
            for op in range(5):
                if op == 4 and (ver != 3 or kind != 2) or ver == 0 and op == 3 or kind == 1 and op != 1:
                    continue
                if not th and kind != 1 and ver != 1 and (i % 3 if sec else i % 2):
                    i += 1
                    continue
                i += 1
                # all the levels pass 127/128, 255/256
                lo = 80 if ver != 3 else 140
                for at in range(lo, 360, 40):
                    size(ver, sec, op, kind, at, 40, whole=i % 2, reach=[1])
                # around the limit: each place where there may be no room
                near = (4040, 4060, 4080, 4100, 4120, 4140, 4160, 4180, 4200, 4220)
                for at in near[:6] if ver != 3 else near if sec % 10 == 0 or th else near[i % 3 :: 3]:
                    st = 1 if sec % 10 == 0 or th else 4
                    size(ver, sec, op, kind, at, 20 // st, st, whole=i % 2)
                for at in (1000, 3000, 4300, 5000, 8200, 20000):
                    if sec % 10 == 0 or th or at != 3000:
                        size(ver, sec, op, kind, at, 1)
    for ver, sec in [(1, 0), (3, 0)]:
        size(ver, sec, 0, 0, 65500, 2, 80)
    for sec in (0, 10, 21, 12):
        for n in (1, 5, 12, 32) if not th else range(1, 65, 3):
            size(3, sec, 0, 3, 4060, 10 if sec % 10 == 0 else 3, 4, n)
            size(3, sec, 0, 3, 200, 20, 3, n)
    for ver, sec in [(0, 0), (1, 0)] + [(3, s) for s in SECS.values()]:
        enc = sec % 10 != 0
        for at, n, st in ((0, 40, 1), (110, 30, 1), (240, 24, 1), (3900, 15, 2), (3930, 15, 1), (3945, 15, 1), (3960, 15, 1), (3975, 15, 1), (3990, 15, 1), (4005, 15, 1), (4020, 15, 1), (4035, 15, 1), (4050, 4, 100), (5000, 2, 3000)):
            if enc and at in (3945, 3960, 3990, 4020, 4050) and not th:
                continue
            if enc and at > 1000 and not th:
                n, st = max(n // 3, 1), st * 3
            j.append(Job("h_c17_reply", [ver, sec, at, n, st], label="%s replies with %d..%d octets by %d" % (cfg(ver, sec), at, at + (n - 1) * st, st), **L))
    # operations of the buffer
    var = {0: 1, 1: 16, 2: 4, 3: 16, 4: 17, 5: 1, 6: 3, 7: 2, 8: 4, 9: 2}
    firsts = [op + 100 * v for op in var for v in range(var[op])]
    for x in firsts:
        j.append(Job("h_c17_ops", [3 if th or x % 100 in (0, 5, 6) else 2, x] + [ANY] * 2, must_reach=[1], label="buffer operations: %d %d, any" % (x % 100, x // 100), **L))
    # close to the end, then any
    near = [4 + 100 * k for k in (2, 3, 4, 6, 7, 8, 16)] + [1 + 100 * k for k in (2, 3, 4, 6, 7, 8)]
    for x, y in [(x, y) for x in near for y in ((1, 15) if not th else (1, 2, 3, 4, 5, 15))]:
        j.append(Job("h_c17_ops", [4, x, 4 + 100 * y if y else 5, ANY, ANY], must_reach=[1], label="buffer operations: %d %d, skip %d, any two" % (x % 100, x // 100, y), **L))
    return j
