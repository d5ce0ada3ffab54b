from sxlib import Job

HARNESS = ["c16"]
from props.c01 import OPS, SECS

DECODERS = ["header", "value", "INTEGER", "OBJECT IDENTIFIER", "OCTET STRING", "NULL", "SEQUENCE", "relative OID"]
TYPES = ["OCTET STRING", "INTEGER", "OBJECT IDENTIFIER", "REAL", "IpAddress", "Counter32", "Gauge32", "TimeTicks", "Opaque", "Counter64", "UInteger32", "ObjectDescriptor", "BOOLEAN", "NULL"]
EXPLANATION = (
    "Symbolic execution of the compiled decoders. Metamorphic: an element x of arbitrary octets is decoded alone and with arbitrary octets s after it (typed decoders directly; a varbind "
    "alone and followed by another one through the receive path of a session): same value, rest exactly s, extent equal to that of an independent header parser. Tampering: in an otherwise "
    "valid reply, each header in turn declares an arbitrary length beyond the end of the enclosing element (short form and 1..9 length octets); any octets after the message. "
    "No such datagram may be delivered, taken for the end of a walk or accepted by a message decoder."
)
OUTSIDE = "Elements longer than listed. Trailing octets within a varbind, PDU or scoped PDU that no declared length violates. Decimal REAL longer than listed."
ASSUMPTIONS = ["digests and ciphers are uninterpreted functions", "indefinite lengths are refused or not, either is accepted"]


def BOUNDS(tier):
    th = tier != "quick"
    return {
        "element": "all elements of up to %d octets, header included, followed by 1..%d arbitrary octets" % (8 if th else 6, 3),
        "long forms": "string values of up to 4 octets with 1..9 length octets",
        "tampered length": "every header of v1, v2c, v3, v3 authenticated and v3 encrypted replies with two varbinds; all lengths in short form and in 1..9 octets",
        "trailing": "1..4 octets of any value after the message",
    }


def jobs(tier):
    th = tier != "quick"
    j = []
    for d, name in enumerate(DECODERS):
        for n in range(1, 9 if th else 7):
            for m in ((1, 2, 3) if th else (1 + n % 3,)):
                j.append(Job("h_c16_element", [d, n, m, 1 if d == 1 and n > 4 else 0], must_reach=[1] if n >= (5 if d == 3 else 2 if d != 2 else 3) and d != 7 and not (d == 5 and n > 5) else [], label="%s: %d octets and %d more" % (name, n, m)))
    for ver, sec in ((1, 0), (0, 0), (3, 0)):
        for n in (2, 3, 4, 5, 6) if th else (3, 4, 5) if ver == 1 else (4,):
            j.append(Job("h_c16_follow", [ver, sec, n, 2, 0], must_reach=[1, 2], label="v%d %d: value of %d octets, varbind follows" % (ver + 1 if ver < 3 else 3, sec, n)))
        for n, m in ((3, 1), (4, 2), (4, 4)) if ver == 1 else ((3, 2),):
            j.append(Job("h_c16_follow", [ver, sec, n, m, 1], must_reach=[2], label="v%d %d: value of %d octets, %d octets follow" % (ver + 1 if ver < 3 else 3, sec, n, m)))
        for n in (2, 3, 4, 5) + ((6,) if th else ()):
            j.append(Job("h_c16_follow", [ver, sec, n, 1, 2], label="v%d %d: decimal REAL of %d octets, varbind follows" % (ver + 1 if ver < 3 else 3, sec, n)))
        for n in (4, 5, 6, 8) + ((12,) if th else ()):
            j.append(Job("h_c16_follow", [ver, sec, n, 1, 3], must_reach=[1], label="v%d %d: binary REAL of %d octets, varbind follows" % (ver + 1 if ver < 3 else 3, sec, n)))
        for n in (0, 1, 4):
            j.append(Job("h_c16_follow", [ver, sec, n, 1, 4], must_reach=[1] if n else [], label="v%d %d: long-form string of %d octets, varbind follows" % (ver + 1 if ver < 3 else 3, sec, n)))
    for ver, sec in ((0, 0), (1, 0)) + tuple((3, s) for s in SECS.values()):
        for name, op in OPS.items():
            if name == "refresh" and ver != 3 or name == "getbulk" and ver == 0:
                continue
            for m in (1, 2, 3, 4) if th or op == 0 else (1 + op,):
                j.append(Job("h_c16_trailing", [ver, sec, op, m, 2], must_reach=[2], label="v%d %d %s: %d octets after the message" % (ver + 1 if ver < 3 else 3, sec, name, m)))
    for ver in (0, 1, 3):
        for msg in range(5):
            if ver == 0 and msg > 2 or msg == 4 and ver != 3:
                continue
            for m in (1, 2, 4) if th else (1, 3):
                j.append(Job("h_c16_message", [ver, msg, m], must_reach=[1], label="v%d message %d: decoder, %d octets after it" % (ver + 1 if ver < 3 else 3, msg, m)))
    # headers in the order of encoding (depth first)
    for ver, sec, count in ((0, 0, 14), (1, 0, 14), (3, 0, 29), (3, 21, 14), (3, 12, 14), (3, 20, 29), (3, 10, 29)):
        for at in range(count):
            for form in (0, 1, 2, 4, 8, 9) if th else (0, 1, 2) if sec == 0 else (1,) if at < 3 and sec in (10, 20) else (0,):
                ops = list(OPS.items()) if th or form == 0 else list(OPS.items())[at % 4:][:1]
                for name, op in ops:
                    if name == "refresh" and ver != 3 or name == "getbulk" and ver == 0:
                        continue
                    if op == 4 and at >= (19 if sec in (0, 10, 20) else 4):
                        continue  # the content of a Report is not read
                    if sec and not th and op != at % 4 + (at == 4):
                        continue
                    j.append(Job("h_c16_length", [ver, sec, op, at, form, 0], must_reach=[] if sec in (10, 20) and at < 3 and not form else [2], label="v%d %d %s: length of element %d, form %d" % (ver + 1 if ver < 3 else 3, sec, name, at, form)))
    for kind, name in enumerate(TYPES):
        for at, what in ((10, "first"), (13, "second")):
            for op in (0, 1, 2, 3):
                for form in (0, 1, 2) + ((4, 8, 9) if th else ()):
                    if not th and op != 1 and form:
                        continue
                    j.append(Job("h_c16_length", [1, 0, op, at, form, kind], must_reach=[2], label="v2c op %d: length of the %s %s, form %d" % (op, what, name, form)))
    return j
