import pylayer
from sxlib import Job
from props.c01 import SECS
from props.c02 import cfg
from props.c17 import OPN

HARNESS = ["c02", "c18"]
L = {"max_steps": 4000000000}
EXPLANATION = (
    "Every request method of the real client sockets runs against an agent whose datagrams arrive at symbolic times: k datagrams which are not for this "
    "request (another request-id, msgID, user, engine, a wrong MAC, a foreign Report), then possibly the matching reply, the processing time of each datagram "
    "being symbolic too. The clock (clock_gettime behind Instant) and SO_RCVTIMEO of the socket are modelled: a receive which finds nothing sleeps exactly "
    "until the next arrival or for the socket's timeout, and a zero timeout blocks for ever as the kernel does. For every schedule the call must end within "
    "the timeout, must deliver the reply which comes in time, must not give up early and must report the expiry as the exception which the Python client maps to TimeoutError; "
    "the second and third calls of the same socket prove that no call spoils the timeout of the next. The Python clients are executed symbolically over the same contract."
)
OUTSIDE = [
    "the timeout is 4 units and the times are 0..7 units, units of 400 ns .. 1 s",
    "at most 3 (quick) or 5 (thorough) strays per call, 3 calls",
    "scheduling of the operating system and of asyncio: time passes only in receive calls, in processing a datagram (lag) and in asyncio.wait_for",
    "an endless flood of datagrams for the async client, which never yields to the event loop",
]


def BOUNDS(tier):
    return {"strays": 3 if tier == "quick" else 5, "calls": 3, "times": "0..7 units each, cumulative; timeout 4 units", "units_ns": [400, 1000, 10**6, 10**9], "operations": list(OPN)}


def jobs(tier):
    th = tier != "quick"
    j = []

    def name(x):
        if not x:
            return ""
        x -= 1
        return "%d strays%s%s" % (x % 10, " (kinds %d)" % (x // 100) if x % 10 else "", ", reply" if x // 10 % 10 else "")

    def add(ver, sec, op, t, calls, unit=10**9, reach=(1, 2)):
        calls = list(calls) + [0] * (3 - len(calls))
        j.append(Job("h_c18", [ver, sec, op, t] + calls + [unit], must_reach=list(reach), label="%s %s, timeout %s, unit %d: %s" % (cfg(ver, sec), OPN[op], t or "any", unit, "; ".join(name(x) for x in calls if x)), **L))

    def add4(ver, sec, op, calls, unit, reach=(1, 2)):
        add(ver, sec, op, 4 * unit, calls, unit, reach)

    def call(k, reply, kinds=0):
        return 1 + k + 10 * reply + 100 * kinds

    def kinds(ver, sec):
        return [0, 5] if ver < 3 else [0, 1, 2, 3, 5] + ([4] if sec else [])

    confs = [(0, 0), (1, 0)] + [(3, s) for s in SECS.values()]
    for ver, sec in confs:
        # silence, then silence again
        add4(ver, sec, 0, [call(0, 0), call(0, 1)], 10**6)
        for op in range(5):
            if ver < 3 and op == 4:
                continue
            add4(ver, sec, op, [call(1, 1)], 10**9)
            if th:
                add4(ver, sec, op, [call(3, 1), call(2, 1)], 10**6)
        for k in kinds(ver, sec):
            add4(ver, sec, 0, [call(2, 1, k * 11)], 10**6)
            if th:
                for l in kinds(ver, sec):
                    add4(ver, sec, 0, [call(3, 1, k + 10 * l), call(1, 1)], 10**9)
        for unit in (10**9, 10**6, 1000, 400):
            add4(ver, sec, 0, [call(1, 1)], unit)
        add4(ver, sec, 0, [call(2, 1), call(1, 1)], 10**9)
        if ver < 3 or th:
            add4(ver, sec, 0, [call(3, 1)], 10**9)
            add4(ver, sec, 0, [call(2, 1), call(1, 1), call(1, 1)], 10**6)
            # what the kernel truncates to zero
            for t in (1, 999, 1000, 1001, 1999):
                add(ver, sec, 0, t, [call(1, 1), call(1, 1)], 300)
        if th:
            add4(ver, sec, 0, [call(5, 1)], 10**9)
            for t in (3600, 86400):
                add(ver, sec, 0, t * 10**9, [call(2, 1), call(1, 1)], t * 10**9 // 4)
        j.append(Job("h_c18_async", [ver, sec, 0, 3, 0], must_reach=[1, 2], label="%s non-blocking" % cfg(ver, sec), **L))
        if ver < 3 or th:
            for op in range(1, 5):
                if ver == 3 or op < 4:
                    j.append(Job("h_c18_async", [ver, sec, op, 2, 0], must_reach=[1, 2], label="%s non-blocking %s" % (cfg(ver, sec), OPN[op]), **L))
    return j


python_layer = pylayer.layer("C18")
