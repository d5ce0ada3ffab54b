from sxlib import Job
from props import digits

HARNESS = ["c15"]
EXPLANATION = (
    "Symbolic execution of the compiled encoders and decoders: every INTEGER is one 64-bit symbolic variable, OIDs, "
    "octet strings, communities, user names and engine ids have symbolic content, every length 0..4080 is one symbolic "
    "variable; the encoding is compared with an independently written minimal encoder and decoded again by the library."
)
OUTSIDE = "Sizes other than those listed for octet strings, OIDs and messages (their lengths are covered by the symbolic length query alone)."


def BOUNDS(tier):
    return {"INTEGER": "all 2^64 values", "length octets": "all lengths 0..4080", "arc in text": "all values of up to 10 digits, 0..2^32-1", "messages": "sizes in evidence jobs, contents symbolic, each integer field in turn over all 2^64 values"}


def jobs(tier):
    th = tier != "quick"
    j = [Job("h_c15_int", must_reach=[1], label="INTEGER"), Job("h_c15_null", must_reach=[1], label="NULL"), Job("h_c15_len", must_reach=[2, 3, 4], label="lengths")]
    for n in [1, 2, 8, 126, 127, 128, 129, 255, 256] + ([3, 4, 5, 6, 7, 9, 16, 64, 254, 257, 1000, 4000] if th else []):
        j.append(Job("h_c15_oid", [n], must_reach=[1], label="OID of %d octets" % n))
    for c in digits.arcs():
        j.append(Job("h_c15_oid_text", digits.args(c), must_reach=[1], label="OID text, arc " + digits.name(c)))
    for n in [0, 1, 127, 128, 255, 256, 4076] + ([2, 3, 126, 129, 254, 257, 1000, 2000, 4000] if th else []):
        j.append(Job("h_c15_octets", [n], must_reach=[1], label="OCTET STRING of %d octets" % n))
    shapes = [(6, 1, 8), (0, 0, 1), (1, 2, 40)] + ([(127, 1, 8), (128, 3, 60), (255, 1, 128), (256, 5, 255), (90, 1, 4), (6, 40, 12)] if th else [(128, 3, 60), (255, 1, 128)])
    for ver in (0, 1):
        for kind in (0, 1, 2):
            for cl, n, ol in shapes:
                for wide in [0] + ([1, 2] if kind == 2 else []):
                    j.append(Job("h_c15_msg", [ver, kind, cl, n, ol, wide], must_reach=[1 + kind], label="v%d message kind %d community %d, %d x %d octet OID, wide %d" % (ver + 1, kind, cl, n, ol, wide)))
    shapes3 = [(4, 9, 1, 8, 12, 8), (0, 0, 0, 1, 0, 0), (32, 32, 3, 40, 12, 8)] + ([(1, 5, 1, 100, 12, 0), (127, 12, 1, 8, 12, 8), (128, 12, 2, 128, 12, 8), (32, 128, 1, 8, 0, 0)] if th else [])
    for kind in (0, 1, 2):
        for u, e, n, ol, a, p in shapes3:
            for wide in [0, 3, 4, 5] + ([1, 2] if kind == 2 else []):
                j.append(Job("h_c15_v3", [kind, u, e, n, ol, wide, a, p, 0], must_reach=[1 + kind], label="v3 message kind %d user %d engine %d, %d x %d octet OID, auth %d priv %d, wide %d" % (kind, u, e, n, ol, a, p, wide)))
    for d in [8, 16, 120, 128, 256] + ([1, 48, 64, 127, 255, 1024, 3800] if th else []):
        j.append(Job("h_c15_v3", [0, 4, 9, 0, 1, 3, 12, 8, d], must_reach=[9], label="v3 message, %d octets of ciphertext" % d))
    return j
