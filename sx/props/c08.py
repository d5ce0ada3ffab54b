from sxlib import Job
from props import digits

HARNESS = ["c08"]
EXPLANATION = (
    "Symbolic execution of the compiled text parser behind get, get_many, getnext and getbulk on texts whose characters are "
    "solver variables: every path either raises with nothing sent, or the OID read back from the datagram by an independent "
    "reader equals the one an independent parser derives from the same characters. Numbers are cut into classes (a prefix, "
    "then free decimal digits) which together cover 0..2^32-1, and beyond up to 25 digits. Then the agent returns the OID "
    "sent, as name and as value, and its rendering is compared with the text."
)
OUTSIDE = (
    "Texts with more than the listed number of free characters at once; characters beyond two octets of UTF-8. Free choice of the "
    "library (not judged): leading zeros in an arc, a second arc above 39 under root 2 - refused or sent as exactly that OID."
)


def BOUNDS(tier):
    n = 5 if tier == "quick" else 7
    return {"free ASCII characters": "0..%d at the start, up to %d after a prefix" % (n, n - 1), "arcs": "all of 0..2^32-1 by digit classes, and all numbers of 10..25 digits above", "arcs in one OID": "2..128", "entry points": "get, get_many (first and later position), getnext, getbulk"}


def jobs(tier):
    th = tier != "quick"
    j = []
    n = 7 if th else 5
    for how in range(5):
        for k in range(0, n + 1 if how < 1 else n - 1):
            # a text of 3 characters at least can be an OID
            j.append(Job("h_c08_chars", [how, 0, k, 0], must_reach=[2] + ([1] if k >= 3 else []), label="entry %d: %d characters" % (how, k)))
    for pre in range(1, 9):
        for k in range(0, n - 1):
            for suf in (0, 1, 2, 3):
                if k == 0 and suf > 1:
                    continue
                if suf and k > 2 and not th:
                    continue
                j.append(Job("h_c08_chars", [k % 5, pre, k, suf], label="prefix %d, %d characters, suffix %d" % (pre, k, suf)))
    for p in range(9):
        j.append(Job("h_c08_utf8", [p % 5, p], must_reach=[2], label="other character at %d" % p))
    cl = digits.arcs()
    for i, c in enumerate(cl):
        for tail in (0, 1):
            for how in range(5) if th else [(i + tail) % 5]:
                j.append(Job("h_c08_arc", [how] + digits.args(c) + [tail], must_reach=[1], label="entry %d: arc %s, place %d" % (how, digits.name(c), tail)))
    for i, c in enumerate(cl[:20] if not th else cl):
        for tail in (2, 3, 4, 5):
            j.append(Job("h_c08_arc", [i % 5] + digits.args(c) + [tail], label="arc %s, place %d" % (digits.name(c), tail)))
    for k, c in enumerate(digits.classes(2**32, 10**10 - 1) + [(0, 1, 9, d) for d in range(10, 25)]):
        for tail in (0, 1):
            j.append(Job("h_c08_arc", [k % 5] + digits.args(c) + [tail], must_reach=[2], label="too large arc %s, place %d" % (digits.name(c), tail)))
    for k in [4, 16, 127, 128] + ([32, 64, 100] if th else []):
        for how in range(5):
            j.append(Job("h_c08_many", [how, k], must_reach=[1], label="entry %d: %d arcs" % (how, k)))
    for i, c in enumerate(cl):
        for root in (0, 1, 2):
            for place in (0, 1, 2) if th else [(i + root) % 3]:
                j.append(Job("h_c08_back", [i % 2] + digits.args(c) + [root, place], must_reach=[1], label="back: root %d, arc %s, place %d" % (root, digits.name(c), place)))
    return j
