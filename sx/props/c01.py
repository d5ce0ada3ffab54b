from sxlib import Job

HARNESS = ["c01"]
OPS = {"get": 0, "get_many": 1, "getnext": 2, "getbulk": 3, "refresh": 4}
SECS = {"noAuth": 0, "MD5": 10, "SHA": 20, "MD5/DES": 11, "MD5/AES": 12, "SHA/DES": 21, "SHA/AES": 22}
PLACES = ["PDU", "PDU content", "after request-id", "varbind list", "first varbind", "value", "second varbind", "report", "OID", "relative OID", "OID and relative OID", "OID value", "REAL", "value of any tag"]
V3PLACES = ["after version", "global header", "security parameters", "USM sequence", "msgData", "scoped PDU", "after context engine id", "header and flags", "after USM time", "USM boots to user", "flags"]
EXPLANATION = (
    "Symbolic execution of the compiled receive path (socket wrapper, three message decoders, USM, decryption, typed decoders, operations, conversion to Python values) from the real "
    "recv_* entry points with a pending request: datagrams of n arbitrary octets, and otherwise valid replies where each syntactic part in turn is n arbitrary octets. Every path must end "
    "by a value, a skip (BlockingIOError from the drained non-blocking socket) or one of the documented exceptions. Panics, aborts, out-of-bounds or uninitialised accesses, "
    "overlapping copies, wrong frees and paths above the instruction limit are reported by the executor itself."
)
OUTSIDE = (
    "More arbitrary octets at one place than listed; decimal REAL longer than listed (the digits go through the standard library's float parser). "
    "Datagrams are delivered one or two per call, unlimited floods are the subject of C18."
)
ASSUMPTIONS = [
    "digests and ciphers are uninterpreted functions of all their input octets (same sizes as the real ones)",
    "recv() of the socket stores the first octets of the datagram which fit the buffer it is given",
    "Python objects are created by a stand-in of pyo3 which fails where pyo3 fails",
    "request-id and msgID take 4 octets in structured replies",
]


def BOUNDS(tier):
    th = tier != "quick"
    return {
        "raw datagram": "all datagrams of %s octets" % ("0..12" if th else "0..8 and 10"),
        "structured replies": "each of 14 places of the PDU and 11 of the v3 message: all contents of up to %d octets; any privacy and authentication parameters of 0..16 octets, any engine boots and time" % (6 if th else 5),
        "configurations": "v1, v2c, v3 with every digest and cipher; get, get_many, getnext, getbulk, refresh",
        "long datagrams": "sizes around 4080 octets",
        "histories": "two datagrams, two further calls",
    }


def jobs(tier):
    th = tier != "quick"
    j = []
    ops = list(OPS.items())
    for vn, v in (("v1", 0), ("v2c", 1), ("v3", 3)):
        for name, op in ops:
            if name == "refresh" and v != 3 or name == "getbulk" and v == 0:
                continue
            secs = SECS if v == 3 and (th or name == "get") else {"": 0}
            for sn, sec in secs.items():
                top = 12 if th else 10 if sec == 0 else 6
                for n in sorted({0, 1, 2, 3, 5, 6, 8, top} if v != 3 or th else {2, 4, 7, top}):
                    if n <= top:
                        j.append(Job("h_c01_raw", [v, sec, op, n], must_reach=[2], label="%s %s %s: datagram of %d octets" % (vn, sn, name, n)))
    # structure of the PDU
    for name, op in ops[:4]:
        for place, pn in enumerate(PLACES):
            sizes = [0, 1, 2, 3, 5] + ([4, 6] if th else [])
            for n in sizes:
                x = 2
                if place == 10:
                    if n > 3:
                        continue
                    x = 4 if th else 2
                if place in (12, 13):
                    x = 1 if n > 4 else 0
                ver = 1 if place == 10 or op == 3 or n < 5 else (n + place) % 2
                j.append(Job("h_c01_pdu", [ver, 0, op, place, n, x], label="v%d %s: %s of %d octets" % (ver + 1, name, pn, n)))
    # in every security configuration
    for sn, sec in SECS.items():
        for place in (0, 1, 2, 4, 7):
            for n in (0, 3, 5) if th else (0, 4):
                j.append(Job("h_c01_pdu", [3, sec, 4 if place == 7 else 1 if place == 4 else 0, place, n, 0], label="v3 %s: %s of %d octets" % (sn, PLACES[place], n)))
    for sn, sec in SECS.items():
        for place, pn in enumerate(V3PLACES):
            if place == 10:
                j.append(Job("h_c01_v3", [sec, 0, place, 0], label="v3 %s: any flags" % sn))
                continue
            for n in (0, 1, 2, 3, 4, 5, 6) if th else (1, 3, 5) if sec in (0, 21) else (4,):
                j.append(Job("h_c01_v3", [sec, n % 5, place, n], label="v3 %s: %s, %d octets" % (sn, pn, n)))
    # encrypted data
    for sn, sec in SECS.items():
        if not th and sec in (10, 11, 20):
            continue
        for n, salt, auth, flags, sign in [(0, 8, 12, 3, 1), (7, 8, 12, 3, 1), (8, 8, 12, 3, 1), (10, 8, 12, 3, 1), (8, 8, 12, 3, 0), (9, 8, 12, 3, 0), (16, 0, 12, 3, 1), (16, 7, 12, 3, 1), (16, 9, 12, 3, 1), (16, 16, 12, 3, 1), (8, 8, 0, 3, 0), (8, 8, 11, 3, 0), (8, 8, 13, 3, 0), (8, 8, 16, 3, 0), (8, 8, 12, 2, 1), (8, 0, 0, 0, 0), (8, 8, 12, 0, 1), (1, 1, 1, 7, 0)]:
            j.append(Job("h_c01_enc", [sec, 0, n, salt, auth, flags, sign], label="v3 %s: %d octets of ciphertext, salt %d, auth %d, flags %d, signed %d" % (sn, n, salt, auth, flags, sign)))
    for e in (0, 1, 5, 12, 32, 33, 64, 127) if th else (0, 1, 12, 32, 33):
        for rep in (0, 1):
            j.append(Job("h_c01_discovery", [e, 3, rep], label="discovery: engine id of %d octets, report %d" % (e, rep)))
    for v, op in ((0, 0), (1, 1), (3, 2), (1, 3)):
        for n in (3000, 4000, 4036, 4040, 4060, 4090, 5000):
            j.append(Job("h_c01_big", [v, op, n], label="v%d %s: value of %d octets" % (v, op, n)))
    for v, sec in ((0, 0), (1, 0), (3, 0), (3, 21), (3, 12)):
        for op in range(4):
            if v == 0 and op == 3:
                continue
            j.append(Job("h_c01_seq", [v, sec, op, 2, 3], label="v%d %d op %d: two datagrams" % (v, sec, op)))
    return j
